#!/opt/venv/bin/python
"""refresh the "fixed" list of known_findings.json (run by hand, never by a check)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [('uneven spacing of two-dim', 'C29'), ('single parallel', 'C24'), ('with units to unordered', 'C13'), ('frequency resolution', 'C10'), ('Nyquist', 'C10'), ('gradient differentiates', 'C11'), ('delta_pressure of a column', 'C17'), ('by year distinguishes', 'C07'),
        ('month_to_season drops', 'C08'), ('missing values in calendar_average', 'C04'), ('with a leap year', 'C06'), ('cover every month', 'C06'), ('season without valid', 'C06'),
        ('leak into season', 'C09'), ('surface pressure of any rank', 'C12'), ('other coordinates than the level', 'C12'), ('has its pressure levels whatever', 'C13'), ('eager data with a chunked', 'C13'),
        ('interp_sigma_to_hybrid to more', 'C15'), ('levels in any order', 'C13'), ('interp_multidim of data', 'C16'), ('possible names in the order', 'C28'), ('found by standard name', 'C28'),
        ('not named plev', 'C21'), ('missing temperatures', 'C22'), ('rejects invalid humidity', 'C29'), ('pearson_r of Datasets', 'C25'), ('array-like inputs along', 'C25'), ('weights given along', 'C25'),
        ('leaves the attributes of its input', 'C01'), ('time is not the leftmost', 'C26'), ('negative time_dim', 'C26'), ('scalar coordinates scalar', 'C09'), ('integer coordinates', 'C11'), ('EOFs of integer', 'C26'),
        ('saturation vapor pressure of unsigned', 'C30'), ('dewtemp of unsigned', 'C30'), ('latitudes in small', 'C30'), ('integer longitudes', 'C30'), ('small integer data', 'C30'),
        ('small integer levels', 'C30'), ('heat_index of unsigned', 'C30'), ('small integer weights', 'C30'), ('unsigned integers', 'C30'),
        ('label the humidity', 'C31'), ('drops name and attributes', 'C31'), ('DataArray with leading', 'C11'), ('repeated coordinate labels', 'C31'), ('missing surface pressures', 'C17'), ('surface pressure is missing', 'C14')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    m = [q for k, q in PROP if k in s]
    assert len(m) == 1, (l, m)
    fixed.append(f'fixed: property={m[0]} {h} {s[5:]}')
f = f'{V}/known_findings.json'
d = json.load(open(f)); d['fixed'] = fixed
json.dump(d, open(f, 'w'), indent=1)
print(len(fixed))
