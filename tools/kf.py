import subprocess,re
P={}
def a(p,*subs):
    for s in subs: P[s]=p
a('P01','291e853','6c23c3e','f6126e8','50c8ddb','507816f','53679b6')
a('P05','7c7f2a7','bbc714c','86875e1','cc3fe11','c3299ae')
import sys,os
extra=open('/verif/fixmap.txt').read().split('\n') if os.path.exists('/verif/fixmap.txt') else []
for l in extra:
    if l.strip(): h,p=l.split()[:2]; P[h]=p
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True)
head="""# Findings in golems/amino.
# "fixed:" lines record defects repaired by a fix: commit in /repo; they suppress nothing.
# "known:" lines list defects that are recorded but not repaired; each names the scenario, class and
# message of exactly the failing history, and nothing else of the property is suppressed.
"""
body=''; miss=[]
for l in out.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    if h not in P: miss.append(l); continue
    body+='fixed: property=%s %s %s\n'%(P[h],h,s[5:])
known=''.join(l+'\n' for l in (open('/verif/KNOWN_FINDINGS.txt').read().splitlines() if os.path.exists('/verif/KNOWN_FINDINGS.txt') else []) if l.startswith('known:'))
open('/verif/KNOWN_FINDINGS.txt','w').write(head+body+known)
print('MISSING',miss)
