"""Rewrites MANIFEST.json from the obligation table."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
sys.dont_write_bytecode = True
import obligations as O, properties as R
NA = {}
if os.path.exists(V + '/not_applicable.json'):
    NA = json.load(open(V + '/not_applicable.json'))
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
         if 'hook' in l.split(' ', 1)[1] and not l.split(' ', 1)[1].startswith('fix:')]
checks = []
for p in R.P:
    i = p['id']
    if i not in O.PROPS:
        continue
    P = O.PROPS[i]
    n = len([o for o in O.OBS if i in o['props']])
    fns = sorted({f for o in O.OBS if i in o['props'] for f in o.get('fn', '').split(',') if f})
    checks.append(dict(property=i, quick_cmd='python3 bin/vp.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 bin/vp.py ' + i,
                       evidence_file='evidence/%s.json' % i,
                       technique='deductive verification: function and loop contracts on the real C code, discharged by CBMC (goto-instrument --dfcc) with SAT/SMT back ends',
                       level=P.get('level', 'proof'),
                       level_note=P.get('note', '') + (' ' if P.get('note') else '') +
                       '%d obligation groups over %s. Trusted: %s. Assumptions: %s.' % (
                           n, ', '.join(fns), '; '.join(P.get('trusted', [])) or 'verifier only', '; '.join(P.get('assumptions', [])) or 'none')))
m = dict(version=1, setup_cmd='python3 bin/vp.py --list > /dev/null && mkdir -p evidence out',
         hooks=dict(guard='DRPM_VERIFY', enable='bin/vp.py compiles a scratch copy of /repo/src with goto-cc -DDRPM_VERIFY -I include (loop contracts become CBMC clauses); without the define the hooks expand to nothing', source_commits=hooks),
         checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'not claimed yet: contracts for this part are still being written')) for p in R.P if p['id'] not in O.PROPS],
         notes='See DESIGN.md. Known findings and repaired defects: known_findings.json.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
