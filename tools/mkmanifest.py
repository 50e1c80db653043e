"""MANIFEST.json from tools/units.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from units import PROPS, NOTES, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = dict(version=1,
    setup_cmd='python3 tools/setup.py',
    checks=[dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
        technique=PROPS[i].get('technique', 'contract-based deductive verification (Verus) of the functions extracted from /repo'),
        level='proof', level_note=NOTES[i]) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, 'contracts for this property are not built yet')) for i in ids if i not in PROPS],
    notes='A failed obligation is reported with a failing input when the generators find one, otherwise with no-failing-input-found. An obligation that cannot be generated or decided on a changed tree is listed as undecided in the evidence and a bounded search stands in for it.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
