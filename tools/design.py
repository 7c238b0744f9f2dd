import json,os,glob
p='/verif/DESIGN.md'; s=open(p).read()
k=json.load(open('/verif/known_findings.json'))
fx="\n".join("* "+x['entry'].replace('fixed: property=','').replace(' ',' — ',2).replace(' — ',' `',1).replace(' — ','`: ',1) for x in k if x['status']=='fixed')
sd="| seed | property | needs | caught by |\n|---|---|---|---|\n"+"\n".join("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d['property'],d['needs'],d['property']) for m in sorted(glob.glob('/verif/seeded/*/meta.json')) for d in [json.load(open(m))])
import re
if '\nFIXES\n' in s: s=s.replace('\nFIXES\n','\n<!-- fixes -->\n'+fx+'\n<!-- end -->\n').replace('\nSEEDS\n','\n<!-- seeds -->\n'+sd+'\n<!-- end -->\n')
else:
    s=re.sub(r'<!-- fixes -->\n.*?<!-- end -->',lambda m:'<!-- fixes -->\n'+fx+'\n<!-- end -->',s,flags=re.S)
    s=re.sub(r'<!-- seeds -->\n.*?<!-- end -->',lambda m:'<!-- seeds -->\n'+sd+'\n<!-- end -->',s,flags=re.S)
open(p,'w').write(s)
