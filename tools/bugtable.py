"""write the table of planted bugs into DESIGN.md; argument: json of {bug: outcome now}"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = json.load(open(sys.argv[1]))
MISSED = {
    'c01-custom-seasons-deduped': 'call with repeated seasons added', 'c02-keep-attrs-option': 'preemption where process state differs, probes of all functions',
    'c02-midpoint-buffer': 'counterparts with other levels, not only other data', 'c03-heat-index-block-threshold': 'multisets of branch representatives in blocks',
    'c08-cftime-offset': 'day of the stamp compared', 'c12-p0-int': 'more reference pressures', 'c12-signed-thickness': 'levels stored upward', 'c13-integer-data': 'targets all inside',
    'c16-close-to-missing': 'tiny data with a missing value', 'c16-missing-zero': 'missing value 0', 'c22-dewpoint-shared-latent-heat': 'several long dimensions',
    'c26-variance-fraction': 'more modes than ten', 'c28-long-name-case': 'near-miss long names'}
MISSED.update(json.load(open(os.path.join(V, 'tools/missed.json'))) if os.path.exists(os.path.join(V, 'tools/missed.json')) else {})
rows = ['| bug | property | needs | first | now |', '|---|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {'missed: ' + MISSED[b] if b in MISSED else 'caught'} | {'caught' if 'VIOLATION' in now.get(b, '') else 'MISSED' if b in now else '?'} |")
p = V + '/DESIGN.md'
s = open(p).read()
i, j = s.index('<!-- bugs -->'), s.index('<!-- /bugs -->')
open(p, 'w').write(s[:i] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n' + s[j:])
