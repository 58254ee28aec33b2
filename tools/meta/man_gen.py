import json,sys
sys.path.insert(0,'/verif/vp')
from props import PROPS
NOTE=json.load(open('/verif/tools/meta/notes.json'))
checks=[]
for p in sorted(PROPS):
    n=NOTE.get(p,{})
    checks.append(dict(property=p,quick_cmd='python3 vp/check.py '+p,thorough_cmd='VERIF_TIER=thorough python3 vp/check.py '+p,evidence_file='evidence/%s.json'%p,
      technique=n.get('technique','contracts on the extracted functions, discharged by Verus; failing inputs replayed on the real crate'),
      level=PROPS[p]['level'],level_note=n.get('note','')))
allp=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na=[dict(property=p,reason=NOTE[p]['na']) for p in allp if p not in PROPS]
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo: the checks read the working tree, expand it and extract functions from the expansion.'),open('/verif/MANIFEST.json','w'),indent=1)
