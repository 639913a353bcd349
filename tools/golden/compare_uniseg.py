import re
def load(f):
    d=[None]*0x110000
    for l in open(f):
        m=re.match(r'\s*\{0x([0-9A-F]+), 0x([0-9A-F]+), pr(\w+)\}',l)
        if m:
            for c in range(int(m[1],16),int(m[2],16)+1):
                assert d[c] is None,(f,hex(c)); d[c]=m[3]
    return d
B='/repo/runewidth/uniseg/'
g=load(B+'graphemeproperties.go'); e=load(B+'eastasianwidth.go'); p=load(B+'emojipresentation.go')
from itertools import groupby
diff={'g':[], 'e':[], 'p':[]}
for c,l in enumerate(open('ucd.txt')):
    G,E,P,X,i13,i14=l.split()
    gg=g[c] or 'XX'
    if gg!=G: diff['g'].append((c,gg,G,i14))
    ee='WF' if e[c] in('W','F') else 'n'; EE='WF' if E in 'WF' else 'n'
    if ee!=EE: diff['e'].append((c,ee,EE,i14))
    if (p[c] is not None)!=(P=='1'): diff['p'].append((c,p[c],P,i14))
for k,v in diff.items():
    print(k,len(v))
    for key,grp in groupby(enumerate(v),lambda t:(t[1][0]-t[0],)+t[1][1:]):
        grp=list(grp); print('  %04X-%04X'%(grp[0][1][0],grp[-1][1][0]),grp[0][1][1:])
