import json,sys
sys.path.insert(0,'/verif/bin')
from props import PROPS
checks=[]
for k,v in PROPS.items():
    checks.append(dict(property=k,quick_cmd='python3 bin/check.py '+k,thorough_cmd='python3 bin/check.py '+k,
      technique='contract harnesses on the real code, discharged by Kani/CBMC for all symbolic inputs',
      level=v['level'],
      level_note=v['explain']+'. '+('Bounded: '+v['bound']+'. ' if v.get('bound') else '')+'Assumes the contracts of the stand-ins for std and dependencies (shims/), sequential consistency, and the mechanical rendering of bin/kgen.py.'))
json.dump(dict(version=1,setup_cmd='python3 bin/setup.py',checks=checks,not_applicable=[],notes='see DESIGN.md'),open('/verif/MANIFEST.json','w'),indent=1)
