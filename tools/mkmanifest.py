#!/usr/bin/env python3
import sys,os,json
H=os.path.dirname(os.path.abspath(__file__))+'/..'; sys.path.insert(0,H); import claims
ch=[]
for p,c in claims.CLAIMS.items():
    ch.append(dict(property=p,quick_cmd='python3-vt check.py %s'%p,thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --thorough'%p,evidence_file='evidence/%s.json'%p,
      technique=c['technique'] or 'executable contracts on the real code (bounded stand-in); contract obligations on the functions listed in DESIGN.md',level=c['level'],level_note=c['note'] or (c['explanation']+' Bounded scope: '+c['bounded'])))
m=dict(version=1,setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())" && /usr/lib/llvm-18/bin/clang++ --version',checks=ch,
  not_applicable=[dict(property=a,reason=b) for a,b in claims.NA.items()],notes='No hooks in /repo: the harnesses include the real headers. Repairs of genuine defects are the "fix:" commits listed in known_findings.txt.')
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
