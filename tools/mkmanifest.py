"""Writes MANIFEST.json from the registry and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.registry import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'P31': "the decrease of each step is an inequality between run-time inner products of arbitrary traces with truncated ends; no term comparison or dataflow fact yields it (the algorithm itself is decided in P28)",
    'P32': "how the maximum of the stacking surface relates to the generating model is a statistical property of the data and the grid, not of the source (the surface and its maximum are decided in P01-P03)",
    'P33': "overflow and cancellation depend on rounding at run-time magnitudes; the analysis has real-number semantics and no sound bound on layer parameters exists (the formulas are decided in P27)",
}
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 10))"', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        m['checks'].append({
            'property': p, 'quick_cmd': 'python3 check.py %s' % p,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': 'static analysis: ' + CHECKS[p][1], 'level': 'other',
            'level_note': 'Static: decides the property for all inputs of each analysed configuration from the current source; '
                          'library calls are trusted models, constructs outside the model are reported as undetermined, not as alarms. ' + CHECKS[p][2]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check under construction')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), len(m['not_applicable']))
