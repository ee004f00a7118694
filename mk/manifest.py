"""writes MANIFEST.json from the registered rules (run by hand after adding rules): python3 mk/manifest.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.check import load_rules
from sa.rules.base import REGISTRY
load_rules()
NOT_APPLICABLE = {
    'C30': 'round-trip equality quantifies over runtime values and the value semantics of json/pickle; the shape of the code'
           ' cannot bound it. The static parts (which fields are exported, who is called, what is constructed) are claimed'
           ' under C13, C15, C18, C19 and C22.',
    'C31': 'congruence and range of a modular expression over arbitrary (also floating point) numbers is a question about'
           ' values and rounding, not decidable from dataflow or structure.',
    'C32': 'depends on what arbitrary user validators do to values that were already validated; no static argument about'
           ' this repository can bound it.',
}
TECH = {
    'default': 'path-sensitive abstract interpretation of the source (symbolic path summaries of the ASTs, no solver) and'
               ' decision tables over them',
    'effects': 'interprocedural effect (mod/ref, alias) analysis over access paths, judged at every entry point',
}
TECH['C08'] = TECH['C27'] = TECH['effects']
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in REGISTRY and i not in NOT_APPLICABLE:
        checks.append({
            'property': i,
            'quick_cmd': f'python3 -m sa.check {i}',
            'thorough_cmd': f'python3 -m sa.check {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH.get(i, TECH['default']) + ': ' + ', '.join(r[0] for r in REGISTRY[i]),
            'level': 'other',
            'level_note': 'Decided from the source on every run: every path of the functions concerned, for all inputs,'
                          ' under the modelled semantics of Python and of the builtins used (see DESIGN.md). Constructs the'
                          ' analysis cannot follow are reported as undecided in the evidence and raise no alarm.',
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no rule built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na,
           'notes': 'Checks read /repo (or $SA_REPO) and import nothing from it.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
