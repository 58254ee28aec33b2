import sys,subprocess,re,os
sys.path.insert(0,'/verif/vp')
import assemble,verify
sp=assemble.Spec()
files=[a for a in sys.argv[2:] if a.endswith('.spec')]
for f in files: sp.load(f)
ex=assemble.load_extract(sys.argv[1])
pre=open('/verif/spec/prelude.rs').read()
for a in sys.argv[2:]:
    if a.endswith('.rs'): pre=pre.rstrip().rstrip('}')+open(a).read()+'\n}\n'
g,em,miss=assemble.assemble(sp,ex,pre)
out='/tmp/x/v/%s.rs'%os.path.basename(files[-1])[:-5]
open(out,'w').write(g.text())
print(len(em),miss)
r=verify.run_verus(out,g,extra=[a for a in sys.argv[2:] if a.startswith('--')])
print('verified',r['verified'],'errors',r['errors'],'wall %.1f smt %.1f'%(r['wall'],r['smt_ms']/1000),r['timeout'])
for d in r['diags']:
    print('-',d['kind'],'|',d['fn'],'|',(d['clause'] or {}).get('expr',d['clause']),'|',d['lines'])
    if d['kind'] in('front-end','assert','invariant') : print(d['rendered'][:1200])
if not r['ran']: print(r['stderr'][:3000])
