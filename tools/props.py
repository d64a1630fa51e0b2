"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, text, tests, files, mech, over=('inputs',), note='', na=None, level='proof'):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=tests,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}))
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append(dict(property=id, quick_cmd='python3-vt -m vf.run --property ' + id, thorough_cmd='VERIF_TIER=thorough python3-vt -m vf.run --property ' + id,
                           technique='contract-based deductive verification of the compiled MIR (z3), failing inputs replayed on the real code',
                           level=level, level_note=note + ' Assumes real arithmetic for f64 and the listed std models; trusts rustc MIR construction, the obligation generator and z3/sympy.'))


CHECKS = []
from proplist import *      # noqa
fill(P)

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
         'checks': CHECKS, 'not_applicable': NA,
         'notes': 'No hooks in /repo: contracts are attached from outside to the MIR of the unmodified functions.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in PROPS:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print(len(PROPS), 'properties', len(CHECKS), 'checks', len(NA), 'not applicable')
