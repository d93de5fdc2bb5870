import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from info import CHECKS, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
assert sorted(props) == sorted(list(CHECKS) + list(NOT_APPLICABLE)), set(props) ^ set(CHECKS)
json.dump(dict((k, {'bounds': {'quick': v[1], 'thorough': v[2]}, 'assumptions': v[3]}) for k, v in CHECKS.items()),
          open(ROOT + '/checks/meta.json', 'w'), indent=1, sort_keys=True)
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'checks': [{'property': k, 'quick_cmd': 'python3 run.py ' + k, 'thorough_cmd': 'python3 run.py %s --tier thorough' % k,
                 'evidence_file': 'evidence/%s.json' % k, 'technique': v[0], 'level': 'model_checking',
                 'level_note': '%s Quick: %s. Thorough: %s. Assumes: %s.' % (v[4], v[1], v[2], '; '.join(v[3]))} for k, v in sorted(CHECKS.items())],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'The code under test is Python 2 run under Jython; nothing is built. No hooks are needed in /repo: sockets, clock, eventlet and httplib are replaced from outside.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
