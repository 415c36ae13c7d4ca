"""writes MANIFEST.json from the check modules present"""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    f = os.path.join(here, 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
        continue
    m = importlib.import_module('checks.' + i.lower())
    checks.append(dict(
        property=i,
        quick_cmd=f'bash check.sh {i} --tier quick',
        thorough_cmd=f'bash check.sh {i} --tier thorough',
        technique=getattr(m, 'TECHNIQUE', 'bounded exhaustive enumeration of inputs, executed on the '
                          'real code against an independent reference model'),
        level=m.LEVEL,
        level_note='Explored: ' + m.RULE + '. Assumes/trusts: ' + '; '.join(m.ASSUMPTIONS) + '.'))
json.dump(dict(version=1,
               setup_cmd='bash setup.sh',
               checks=checks, not_applicable=na,
               notes='Every check imports /repo/pynare in place (nothing is built), enumerates '
                     'its whole bounded space and runs the real code on each element. '
                     'known_findings.txt lists repaired defects.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
