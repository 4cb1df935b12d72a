"""finding variables by CF attributes and names"""
import itertools, json, os, subprocess, sys
import numpy as np, xarray as xr
from ..core import Prop, VERIF, REPO

# roles a variable can play for the three kinds of request below
ROLES = {
    'std': ('x1', {'standard_name': 'northward_wind'}), 'STD': ('x2', {'standard_name': 'NORTHWARD_WIND'}), 'Std': ('x3', {'standard_name': 'Northward_Wind'}),
    'stdcap': ('x8', {'standard_name': 'Northward_wind'}), 'stdname': ('northward_wind', {}), 'STDNAME': ('NORTHWARD_WIND', {}),
    'long': ('y1', {'long_name': 'Meridional wind'}), 'LONG': ('y2', {'long_name': 'MERIDIONAL WIND'}), 'low': ('y3', {'long_name': 'meridional wind'}),
    'title': ('y4', {'long_name': 'Meridional Wind'}), 'under': ('y5', {'long_name': 'Meridional_wind'}),
    'longname': ('Meridional_wind', {}),
    'first': ('V', {}), 'first2': ('v', {}), 'second': ('vs', {}), 'second2': ('VS', {}), 'second3': ('Vs', {}), 'third': ('merid_w', {}), 'third2': ('Merid_W', {}), 'third3': ('MERID_W', {}), 'third4': ('Merid_w', {}),
    'near': ('vv', {'standard_name': 'northward_wind_speed', 'long_name': 'Meridional wind stress'}), 'eastward': ('u', {'standard_name': 'eastward_wind', 'long_name': 'Zonal wind'}),
    'near2': ('w1', {'standard_name': 'northward_wind speed', 'long_name': 'Meridional wind (m/s)'}), 'near3': ('w2', {'standard_name': 'mean northward_wind', 'long_name': 'Mean Meridional wind'}),
    'near4': ('merid_w_2', {'long_name': 'Meridional  wind'}), 'near5': ('VV', {'standard_name': 'northwardwind', 'long_name': 'Meridional-wind'}),
    'plain': ('temp', {}), 'both': ('z1', {'standard_name': 'northward_wind', 'long_name': 'Meridional wind'}), 'empty': ('e', {'standard_name': '', 'long_name': ''}),
}
REQ = {'all': dict(standard_name='northward_wind', long_name='Meridional wind', possible_names=['V', 'vs', 'merid_w']), 'std': dict(standard_name='northward_wind'),
       'long': dict(long_name='Meridional wind'), 'names': dict(possible_names=['V', 'vs', 'merid_w']), 'std+names': dict(standard_name='northward_wind', possible_names=['merid_w', 'vs']),
       'long+names': dict(long_name='Meridional wind', possible_names=['vs', 'V']), 'none': {}}


def variants(s, spaces):
    v = [s, s.lower(), s.upper(), s.capitalize(), '_'.join(w.capitalize() for w in s.split('_'))]
    if spaces:
        v = [s, s.lower(), s.upper(), s.capitalize(), ' '.join(w.capitalize() for w in s.split(' ')), s.replace(' ', '_'), s.replace('_', ' ')]
    return v


def model(variables, coords, req):
    """variables, coords: lists of (name, attrs) in dataset order; the first request that matches wins, then dataset order (or list order for names)"""
    allv = variables + coords
    if req.get('standard_name'):
        V = variants(req['standard_name'], False)
        for n, a in allv:
            if n in V or a.get('standard_name', '') in V:
                return n
    if req.get('long_name'):
        V = variants(req['long_name'], True)
        for n, a in allv:
            if n in V or a.get('long_name', '') in V:
                return n
    names = [n for n, _ in allv]
    for p in req.get('possible_names') or []:
        for v in variants(p, False):
            if v in names:
                return v
    return None


def build(roles, place):
    v, c = [], []
    for r, p in zip(roles, place):
        (c if p else v).append(ROLES[r])
    return xr.Dataset({n: ((), 1.0, a) for n, a in v}, coords={n: ((), 2.0, a) for n, a in c}), v, c


def seeds_outcome():
    """run in a fresh interpreter: every answer for the pairs"""
    from geocat.comp.gc_util import _find_var
    out = []
    for a, b in itertools.permutations(ROLES, 2):
        ds, v, c = build((a, b), (0, 0))
        for q in REQ:
            try:
                out.append(_find_var(ds, **REQ[q]))
            except KeyError:
                out.append(None)
    return out


class P(Prop):
    id = 'C28'
    oracle = 'priority search written from the docstring: standard name, then long name, then the listed names in their order'
    assumptions = ['several matches of the same kind: the first in the order of the dataset, data variables before coordinates']
    timeout = 300

    def bounds_text(self, tier):
        return ('every ordered pair (and every ordered triple over %s roles) of 30 kinds of variable x data variable/coordinate x 7 requests x required/optional; '
                'every pair again in fresh interpreters with %d hash seeds' % (('all', 32) if tier == 'thorough' else ('13', 8)))

    def scenarios(self, tier):
        for k in range(32 if tier == 'thorough' else 8):
            yield dict(seed=k)
        yield dict(one=1)
        for a in ROLES:
            yield dict(a=a, n=2)
        short = list(ROLES) if tier == 'thorough' else ['std', 'STD', 'stdname', 'long', 'under', 'longname', 'first2', 'second', 'third2', 'near', 'near2', 'both', 'plain']
        for a in short:
            for b in short:
                if a != b:
                    yield dict(a=a, b=b, n=3, short=short if tier != 'thorough' else None)

    def run(self, s, R):
        if 'seed' in s:
            code = ('import sys, json; sys.path[:0] = %r; from mc.checks.c28 import seeds_outcome; print("OUT" + json.dumps(seeds_outcome()))' % ([VERIF, REPO],))
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(s['seed'])), capture_output=True, text=True, cwd=VERIF, timeout=280)
            line = [x for x in p.stdout.splitlines() if x.startswith('OUT')]
            if not R.true(bool(line), 'subprocess', p.stderr[-600:]):
                return
            got = json.loads(line[0][3:])
            exp = [model(*build((a, b), (0, 0))[1:], REQ[q]) for a, b in itertools.permutations(ROLES, 2) for q in REQ]
            R.calls += len(got)
            bad = [i for i, (g, e) in enumerate(zip(got, exp)) if g != e]
            R.obs(got)
            R.true(not bad and len(got) == len(exp), 'answer in a fresh interpreter', f'hash seed {s["seed"]}: {len(bad)} answers differ, first {bad[:1] and (got[bad[0]], exp[bad[0]])}')
            return
        from geocat.comp.gc_util import _find_var, _find_optional_var
        if 'one' in s:
            combos = [((r,), (p,)) for r in ROLES for p in (0, 1)] + [((), ())]
        elif s['n'] == 2:
            combos = [((s['a'], b), p) for b in ROLES if b != s['a'] for p in itertools.product((0, 1), repeat=2)]
        else:
            combos = [((s['a'], s['b'], c), p) for c in (s['short'] or ROLES) if c not in (s['a'], s['b']) for p in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1))]
        for roles, place in combos:
            if len({ROLES[r][0] for r in roles}) < len(roles):
                continue
            ds, v, c = build(roles, place)
            for q, req in REQ.items():
                e = model(v, c, req)
                o = R.call(_find_var, ds, description='the wind', **req)
                o2 = R.call(_find_optional_var, ds, description='the wind', **req)
                if e is None:
                    R.raises(o, 'nothing to find', (KeyError,))
                    if not o.ok:
                        R.true('the wind' in str(o.exc) and all(str(x) in str(o.exc) for k, x in req.items()), 'error names what was tried', str(o.exc))
                    R.true(o2.ok and o2.value is None, 'optional', o2)
                else:
                    R.true(o.ok and o.value == e, 'variable found', f'{roles} {place} {q}: got {o.value if o.ok else o}, model {e}')
                    R.true(o2.ok and o2.value == e, 'optional variable found', f'{roles} {q}')
                if R.viol:
                    return


PROP = P()
