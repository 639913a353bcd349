import unicodedata
from itertools import groupby
nonprint=[(0,0x1f),(0x7f,0x9f),(0xad,0xad),(0x70f,0x70f),(0x180b,0x180e),(0x200b,0x200f),(0x2028,0x202e),(0x206a,0x206f),(0xd800,0xdfff),(0xfeff,0xfeff),(0xfff9,0xfffb),(0xfffe,0xffff)]
np=set(c for a,b in nonprint for c in range(a,b+1))
d=[]
for c,(l,u) in enumerate(zip(open('rw.txt'),open('ucd.txt'))):
    got=l.strip(); G,E,P,X,i13,i14=u.split()
    name=unicodedata.name(chr(c),'')
    comb='COMBINING' in name
    exp=''
    for i in range(4):
        ea=i&1; strict=not(i&2)
        if c in np or comb: w=0
        elif E=='Na': w=1
        elif E in 'WF' and E!='Na': w=2
        elif ea and E=='A': w=2
        elif ea and not strict and X=='1' and c>0xff: w=2
        else: w=1
        exp+=str(w)
    if exp!=got: d.append((c,got,exp,i13,E,name[:40]))
for key,grp in groupby(enumerate(d),lambda t:(t[1][0]-t[0],)+t[1][1:4]):
    grp=list(grp); print('  %04X-%04X'%(grp[0][1][0],grp[-1][1][0]),grp[0][1][1:])
