# mkplanted.py [MATRIX]: rewrites the table of planted bugs at the end of DESIGN.md. MATRIX: output of seeded.sh.
import json,glob,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught={}
m=os.path.join(root,'tools/plant/caught.txt')
for l in open(m):
    a,b=l.rstrip('\n').split(':',1); caught[a.split()[0]]=b.split()
out=['| bug | property | needs | caught by |','|---|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(f)); i=f.split('/')[-2]
    out.append('| %s | %s | %s | %s |'%(i,d['property'],d['needs'].replace('|','\\|'),' '.join(caught.get(i,['?']))))
p=root+'/DESIGN.md'; s=open(p).read()
k=s.find('\n| bug | property |')
if k>=0: s=s[:k+1]
open(p,'w').write(s.rstrip('\n')+'\n\n'+'\n'.join(out)+'\n')
