"""
Writes properties.jsonl and MANIFEST.json. What is claimed is what there is a module in checks/ for.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import NA  # noqa: E402
from props import PROPS  # noqa: E402


def main():
    out, checks, na = [], [], []
    for p in PROPS + NA:
        claimed = os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))
        if p in PROPS and not claimed:
            continue
        out.append({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': ['src/oidcmsg/' + f for f in p['files']],
                'mechanism': [{'name': n, 'where': 'src/oidcmsg/' + w} for n, w in p['mech']],
            },
        })
        if not claimed:
            na.append({'property': p['id'], 'reason': p['reason']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p.get('technique', 'deterministic simulation with fault injection: seeded search over '
                                            'schedules and faults'),
            'level': 'exploration',
            'level_note': p['note'],
        })
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for o in out:
            fp.write(json.dumps(o, ensure_ascii=False) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every seam is put in place from the outside (sim/boot.py, sim/vfs.py, '
                    'sim/sqlseam.py).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1, ensure_ascii=False)
        fp.write('\n')
    print(len(checks), 'claimed,', len(na), 'not applicable')


main()
