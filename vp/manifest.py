"""Writes MANIFEST.json from the property table."""
import json
from . import props
from .engine import VERIF

NOT_APPLICABLE = [
]

def main():
    ids = [json.loads(x)['id'] for x in open(f'{VERIF}/properties.jsonl')]
    checks = []
    for i in ids:
        p = props.PROPS.get(i)
        if not p:
            continue
        c = {'property': i, 'quick_cmd': f'python3 -m vp {i}',
             'thorough_cmd': f'env VERIF_TIER=thorough python3 -m vp {i}',
             'technique': p.technique, 'level': p.level, 'level_note': p.note}
        checks.append(c)
    na = [x for x in NOT_APPLICABLE if x['property'] not in props.PROPS]
    for i in ids:
        if i not in props.PROPS and i not in [x['property'] for x in na]:
            na.append({'property': i, 'reason': 'no check yet'})
    m = {'version': 1, 'setup_cmd': 'python3 -m vp.setup', 'checks': checks,
         'not_applicable': na}
    with open(f'{VERIF}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

main()
