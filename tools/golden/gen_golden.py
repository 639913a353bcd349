from itertools import groupby
exec(open('parse.py').read().split('from itertools')[0])
O='/verif/harness/ref/golden/'
def rle(vals,fn,default):
    with open(O+fn,'w') as f:
        i=0
        for k,grp in groupby(vals):
            n=len(list(grp))
            if k!=default: f.write('%X %X %s\n'%(i,i+n-1,k))
            i+=n
rle([l.strip() for l in open('rw.txt')],'runewidth13.txt','1111')
rle([x or 'XX' for x in g],'gcb14.txt','XX')
rle(['W' if x in('W','F') else '-' for x in e],'wide14.txt','-')
rle(['P' if x else '-' for x in p],'epres14.txt','-')
