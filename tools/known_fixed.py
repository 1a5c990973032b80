import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
P={'7ccbb38':'C03','5cf5fd4':'C02','5863646':'C01','6e524d7':'C02','6465fac':'C01','f1b29e4':'C01','e59e264':'C06','5ea5ecb':'C06','7d40922':'C06','a81e4cf':'C06','6ca6020':'C17','5a89994':'C17','4da7c7f':'C18','ab5bea8':'C18','7ba823c':'C01','c1cff39':'C04','9feec8f':'C22'}
import sys
P.update(dict(a.split('=') for a in sys.argv[1:]))
try: old=json.load(open('/verif/known_findings.json'))
except Exception: old={'findings':[]}
fixed=[]
for l in reversed(log):
    h,m=l.split(' ',1)
    if not m.startswith('fix:'): continue
    key=next((k for k in P if h.startswith(k[:7])),None)
    if key is None:
        # keep earlier assignment
        e=[x for x in old['fixed'] if h in x]
        if e: fixed.append(e[0]); continue
        print('no property for',l); continue
    fixed.append(f"fixed: property={P[key]} {h} {m[4:].strip()}")
old['fixed']=fixed
json.dump(old,open('/verif/known_findings.json','w'),indent=1)
