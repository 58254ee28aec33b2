#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

  1. expand and extract the functions the property depends on (tools/expand, tools/vpx)
  2. put the contracts of spec/*.spec on them, discharge every obligation with Verus
  3. run the concrete driver of the property (harness/*) on the real crate: it turns a broken property into a
     failing input, and it is the bounded stand-in for functions that are out of the verifier's reach
"""
import sys, os, re, json, time, subprocess, threading, shutil, hashlib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'vp'))
import assemble, verify
from props import PROPS, known_finding_lines

REPO='/repo'
T=os.path.join(V,'target')
ENV=dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS=os.environ.get('RUSTFLAGS','')+' -Awarnings')

def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        p=subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,env=env or ENV)
        return p.returncode,p.stdout.decode(errors='replace'),p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -999,(e.stdout or b'').decode(errors='replace'),(e.stderr or b'').decode(errors='replace')+'\ntimeout'

def cargo(args, cwd, target, toolchain=None, timeout=800):
    env=dict(ENV,CARGO_TARGET_DIR=os.path.join(T,target))
    return sh(['cargo']+(['+'+toolchain] if toolchain else [])+args,cwd=cwd,env=env,timeout=timeout)

# ------------------------------------------------------------------------------------------- extraction
def vpx_bin():
    b=os.path.join(T,'tools/debug/vpx')
    rc,o,e=cargo(['build','--offline','-q'],os.path.join(V,'tools/vpx'),'tools')
    if rc!=0 and not os.path.exists(b): raise Exception('vpx does not build: '+e[-2000:])
    return b

def expand(out, features='uuid,chrono'):
    rc,o,e=cargo(['rustc','--offline','-q','--features',features,'--lib','--','-Zunpretty=expanded'],os.path.join(V,'tools/expand'),'expand','nightly')
    if rc!=0: return e[-3000:]
    open(out,'w').write(o); return None

def expand_alt(out, main):
    """the implementations that exist only without the feature const_generics: arrays of a fixed length (VpArr<T, 3> stands for [T; 3])"""
    rc,o,e=cargo(['rustc','--offline','-q','--no-default-features','--features','uuid,chrono','--lib','--','-Zunpretty=expanded'],os.path.join(V,'tools/expand'),'expand','nightly')
    if rc!=0: return e[-3000:]
    have=open(main).read(); text=[]
    for m in re.finditer(r'^impl.*?^}$',o,re.M|re.S):
        if m.group(0) in have: continue
        head,body=m.group(0).split('{',1)
        head=re.sub(r'\[(\w+); *(\d+)\]',lambda k:'VpArr<%s, %d>'%(k.group(1),int(k.group(2))),head)
        text.append(head+'{'+body)
    open(out,'w').write('\n'.join(text)+'\n'); return None

def expand_arms(out, crate='arms'):
    """expands tools/arms (or tools/types); an arm that no longer takes what its function declares is left out (its contract is then missing)"""
    src=open(os.path.join(V,'tools',crate,'src/lib.rs')).read().split('\n'); gone=[]
    d=os.path.join(T,crate+'_src'); os.makedirs(d,exist_ok=True)
    open(os.path.join(d,'Cargo.toml'),'w').write(open(os.path.join(V,'tools',crate,'Cargo.toml')).read()+'\n[lib]\npath = "lib.rs"\n')
    shutil.copy(os.path.join(V,'tools',crate,'Cargo.lock'),os.path.join(d,'Cargo.lock'))
    for attempt in range(4):
        open(os.path.join(d,'lib.rs'),'w').write('\n'.join(src))
        rc,o,e=cargo(['rustc','--offline','-q','--lib','--','-Zunpretty=expanded'],d,crate,'nightly')
        if rc==0:
            # the literals and names of the declarations stand for any text, any status
            o=re.sub(r'"(?:vp_[a-z]+|Vp[A-Z])"',lambda m:'any_lit(%s)'%m.group(0),o); o=re.sub(r'\b65\d{3}(?:u16)?\b',lambda m:'any_code(%s)'%m.group(0),o)
            open(out,'w').write(o); return None,gone
        ls={int(x)-1 for x in re.findall(r'(?:-->|:::) \S*lib\.rs:(\d+):',e)}
        ls={l for l in ls if l<len(src) and src[l].startswith('pub fn ')}
        if not ls: return e[-3000:],gone
        for l in ls: gone.append(re.match(r'pub fn (\w+)',src[l]).group(1)); src[l]=''
    return e[-3000:],gone

def symbols(out):
    """the constants define_symbols! declares, from the expanded source of the derive macro"""
    rc,o,e=cargo(['rustc','--offline','-q','-p','opg_derive','--','-Zunpretty=expanded'],os.path.join(V,'tools/expand'),'expand','nightly')
    ls=re.findall(r'(?:pub(?:\([^)]*\))? )?const \w+:\s*Symbol\s*=\s*Symbol\(\s*"(?:[^"\\]|\\.)*"\s*\);',o)
    open(out,'w').write('\n'.join(ls)+'\n'); return out

def stage_files(work, skip=('bound.rs',)):
    """the whole derive macro in one module: names two modules share are told apart (attr::Field becomes AttrField, ...)"""
    out=[]; d=os.path.join(work,'stage_src'); os.makedirs(d,exist_ok=True)
    src=os.path.join(REPO,'opg_derive/src')
    mods='|'.join(sorted(f[:-3] for r,_,fs in os.walk(src) for f in fs if f.endswith('.rs') and f not in('lib.rs','opg.rs','mod.rs')))
    for r,_,fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith('.rs') or f in('lib.rs','parsing_context.rs') or f in skip: continue
            t=open(os.path.join(r,f)).read()
            attr=re.search(r'^pub struct Container \{',t,re.M) is not None
            if attr:
                t=re.sub(r'(?<!syn::)(?<!\w)(?<!::)\b(Container|Variant|Field)\b(?!\s*\()',r'Attr\1',t)
                t=re.sub(r'\bModelType\b','AttrModelType',t)
            else:
                t=re.sub(r'\battr::(Container|Variant|Field)\b',r'Attr\1',t)
                t=re.sub(r'(?<!_opg::)\bModelType\b','AttrModelType',t)
                t=re.sub(r'(?<!_opg::)\bContextParams\b','DeriveParams',t)
            t='\n'.join(l if re.match(r'\s*(pub )?use ',l) else re.sub(r'(?<![\w:])(?:(?:crate|super|self)::)?(?:%s)::(?=\w)'%mods,'',l) for l in t.split('\n'))
            p=os.path.join(d,os.path.relpath(os.path.join(r,f),src).replace('/','_')); open(p,'w').write(t); out.append(p)
    return out+[symbols(os.path.join(d,'vp_symbols.rs'))]

def pcx_file(work):
    """the error collector, with the run-time borrow flag of its RefCell replaced by exclusive access"""
    t=open(os.path.join(REPO,'opg_derive/src/parsing_context.rs')).read()
    t=t.replace('RefCell','VpCell'); t=re.sub(r'&self\b','&mut self',t); t=re.sub(r'\(self\b','(mut self',t)
    p=os.path.join(work,'parsing_context.rs'); open(p,'w').write(t)
    return [p]+[os.path.join(REPO,'opg_derive/src',f) for f in('lib.rs','opg.rs')]

def extract(vpx, spec, files, out, str_args=False, collect=False):
    """two passes: which functions exist, then inline those that carry no contract"""
    env=dict(ENV,**({'VPX_STR':'1'} if str_args else {}),**({'VPX_COLLECT':'1'} if collect else {}))
    rc,o,e=sh([vpx,out]+files,env=env)
    if rc!=0: return None,e[-2000:]
    keys=[f['key'] for f in json.load(open(out))['fns']]
    known=[k for k in keys if spec.known(assemble.norm(k))]
    open(out+'.known','w').write('\n'.join(known)+'\n')
    rc,o,e=sh([vpx,out,'--known='+out+'.known']+files,env=env)
    if rc!=0: return None,e[-2000:]
    return assemble.load_extract(out),None

# ------------------------------------------------------------------------------------------- proof
CANARY='pub proof fn vp_canary(m: Map<String, int>, s: Seq<char>, v: Vec<int>, w: Vec<int>, a: String, b: String) ensures false { let x = strv(s)@; let y = v@ == w@; let z = a@ == b@; }\n'
def prove(name, specs, preludes, files, work, log, threads=6, thorough=False, str_args=False, elsewhere=(), collect=False):
    """-> dict: per clause result"""
    res=dict(name=name,ran=False,reason=None,failed=[],external={},verified_fns=[],smt_ms=0,wall=0,verified=0,cmd='',inconclusive=[],functions=[],clauses=[],assumed=[],inlined=[],smoke=None)
    spec=assemble.Spec()
    for s in specs: spec.load(os.path.join(V,'spec',s),s in elsewhere)
    pre=open(os.path.join(V,'spec/prelude.rs')).read()
    for p in preludes: pre=pre.rstrip().rstrip('}')+open(os.path.join(V,'spec',p)).read()+'\n}\n'
    ext=set(); rl=None; seen={}
    for attempt in range(12):
        ex,err=extract(vpx_bin(),spec,files,os.path.join(work,name+'.json'),str_args,collect)
        if ex is None: res['reason']='extraction failed: '+err; return res
        try: g,em,missing=assemble.assemble(spec,ex,pre,external=ext,extra=CANARY)
        except Exception as e:
            res['reason']='assembly failed: %r'%e; return res
        path=os.path.join(work,name+'.rs'); open(path,'w').write(g.text())
        r=verify.run_verus(path,g,rlimit=rl,threads=threads)
        res['wall']+=r['wall']; res['smt_ms']+=r['smt_ms']; res['cmd']=r['cmd']
        if 'Internal Verus Error' in r['stderr'] or 'panicked at' in r['stderr']: res['reason']='verifier crashed: '+r['stderr'][-1500:]; return res
        if r['timeout']: res['reason']='verifier timed out'; return res
        front=[d for d in r['diags'] if d['kind']=='front-end']
        if front or not r['ran'] or r['vir_error']:
            bad={d['fn'] for d in front if d['fn']}
            new=bad-ext
            for d in front:
                if d['fn'] in new: seen.setdefault(d['fn'],d['msg'])
            # a contract that does not fit the signature any more: the function is inlined where it is called
            drop={k for k in bad&ext if not k.startswith('<')}-spec.dropped
            if not new and drop:
                log('contract out of reach: '+', '.join(sorted(drop)))
                spec.dropped|=drop; ext-=drop; continue
            if not new:
                res['reason']='front end: '+'; '.join(d['msg']+' in '+str(d['fn']) for d in front[:5]) if front else 'front end: '+r['stderr'][-1500:]
                return res
            log('outside the verifier: '+', '.join(sorted('%s (%s)'%(k,seen.get(k,'')[:100]) for k in new)))
            ext|=new; continue
        if any(d['kind']=='rlimit' for d in r['diags']) and rl is None:
            rl=60; continue
        break
    else:
        res['reason']='no form of the source the verifier accepts'; return res
    canary=[d for d in r['diags'] if d['fn'] is None and 'vp_canary' in d['rendered']]
    if not canary: res['reason']='vacuous: the assumptions prove false'; return res
    res['ran']=True; res['verified']=r['verified']
    res['external']={k:seen.get(k,'') for k in ext|spec.dropped}
    fns=[]
    shapes={f['key']:f for f in ex['fns']}
    failing={}
    for d in r['diags']:
        if d in canary: continue
        failing.setdefault(d['fn'],[]).append(d)
    # clauses: one obligation each per function that has to establish it
    cl=[]; side={}
    for a,b,key,has,e,kind in g.fnlines:
        if kind in('decl','elsewhere') or not has: continue
        tags=clause_tags(spec,key,shapes)
        soft={t for ts,_ in tags for t in ts if t.endswith('~')}       # `[C01~]`: only the clause itself decides C01
        side[key]=sorted({t[:-1] for t in soft})
        tags=[([t.rstrip('~') for t in ts],x) for ts,x in tags]
        fns.append(dict(key=key,kind='assumed' if e else kind,tags=sorted({t for ts,_ in tags for t in ts})))
        if e and key not in ext: continue       # assumed by its specification
        for ts,ex_ in tags:
            cl.append(dict(fn=key,tags=ts,expr=ex_,external=e))
    res['functions']=fns
    inl={}
    for f in ex['fns']:
        for n in f['notes']:
            if n.startswith('inlined:') and f['key'] in em: inl.setdefault(n[8:],[]).append(f['key'])
    res['inlined']=inl
    for fn,ds in failing.items():
        ftags=sorted({t for c in cl if c['fn']==fn for t in c['tags']}-set(side.get(fn,[])))
        for d in ds:
            c=d['clause'] or {}
            own=c.get('tag') if d['kind']=='postcondition' or (d['kind'] in('precondition','invariant') and c.get('tag')!='dep') else None
            if d['kind']=='precondition' and 'allowed(' in str(c.get('text')): own='C11'      # recording an error
            d['tags']=['dep'] if fn is None else own.replace('~','').split(',') if own else ftags      # a lemma that fails supports nothing
            if d['kind']!='postcondition': d['side']=[t for t in side.get(fn,[]) if t not in d['tags']]
            d['fits']=fits(spec,shapes.get(fn))
            if fn is None or d['kind'] in('rlimit','termination') or not d['fits'] or (d['tags']==['dep']):
                res['inconclusive'].append(d)
            else: res['failed'].append(d)
    bad={(d['fn']) for d in res['failed']+res['inconclusive']}
    badc={(d['fn'],(d['clause'] or {}).get('expr')) for d in res['failed']+res['inconclusive'] if d['kind']=='postcondition'}
    hard={d['fn'] for d in res['failed']+res['inconclusive'] if d['kind']!='postcondition' or not (d['clause'] or {}).get('expr')}
    for c in cl:
        c['ok']= None not in failing and not c['external'] and c['fn'] not in hard and (c['fn'],c['expr']) not in badc
    res['clauses']=cl
    # contracts whose function is gone
    for pat,ds in spec.fns:
        if pat in spec.elsewhere: continue
        if not any(re.fullmatch(pat,k) for k in shapes): res['inconclusive'].append(dict(kind='missing',fn=pat,tags=sorted({t for tg in [x for x in ds] for t in re.findall(r'^ensures \[([^\]]*)\]',tg) for t in t.replace('~','').split(',')}),msg='no function matches this contract',rendered='',clause=None))
    for k in spec.dropped:
        for ts,x in clause_tags(spec,k,shapes): res['clauses'].append(dict(fn=k,tags=[t.rstrip('~') for t in ts],expr=x,external=True,ok=False))
    res['assumed']=assumptions(pre)
    if thorough: res['smoke']=smoke(name,spec,pre,files,work,ext,threads,str_args,collect)
    return res

def smoke(name,spec,pre,files,work,ext,threads,str_args,collect=False):
    """`assert(false)` at the end of every function under contract has to fail: no contract holds vacuously"""
    ex,_=extract(vpx_bin(),spec,files,os.path.join(work,name+'_smoke.json'),str_args,collect)
    g,em,_=assemble.assemble(spec,ex,pre,external=ext,smoke=True)
    path=os.path.join(work,name+'_smoke.rs'); open(path,'w').write(g.text())
    r=verify.run_verus(path,g,threads=threads)
    hit={d['fn'] for d in r['diags'] if d['kind']=='assert'}
    want={key for a,b,key,has,e,kind in g.fnlines if kind=='verified' and has}
    return dict(functions=len(want),reached=len(want&hit),vacuous=sorted(want-hit),wall=r['wall'])

def clause_tags(spec,key,shapes):
    """clauses a function has to establish: its own and those of the trait method it implements"""
    out=[]
    ks=[key]
    m=re.fullmatch(r'<.* as (\w+)(?:<.*>)?>::(\w+)',key)
    if m: ks.append('%s::%s'%(m.group(1),m.group(2)))
    for k in ks:
        for r,ds in spec.fns:
            mm=re.fullmatch(r,k)
            if not mm: continue
            x=assemble.parse_ds(assemble.renamed(ds,shapes[key]) if k==key and key in shapes else ds,mm)
            for tag,e in x['ensures']+x['also']: out.append(([t for t in tag.split(',')],e))
    return out

try: LOOPS=json.load(open(os.path.join(V,'spec','loops.json')))     # structure of the loops the annotations were written for (tools/meta/loops_gen.py)
except Exception: LOOPS={}
def fits(spec,f):
    """do the loop annotations belong to the loops the function has now?"""
    if f is None: return True
    want=-1; pats=False
    for r,ds in spec.fns:
        m=re.fullmatch(r,f['key'])
        if m:
            L=assemble.parse_ds(ds,m)['loops']
            if L: want=max(want,max(L)); pats=True
    if want+1!=f['loops'] and (pats or f['loops']): return False
    old=LOOPS.get(f['key'])
    return old is None or not f['loops'] or assemble.loop_signs(f) in old

def assumptions(pre):
    a=[]
    for m in re.finditer(r'broadcast axiom fn (\w+)|#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(fn|struct) (\w+)|uninterp spec fn (\w+)',pre):
        if m.group(1): a.append('axiom '+m.group(1))
        elif m.group(2): a.append('assumed std %s %s'%(m.group(2),m.group(3)))
        else: a.append('uninterpreted '+m.group(4))
    out=[]
    for x in a:
        if x not in out: out.append(x)
    return out

# ------------------------------------------------------------------------------------------- concrete driver
def dictionary(path):
    """string and number literals of the source, so that inputs include what the code compares against"""
    strs=set(); ints=set()
    for d in('opg/src','opg_derive/src'):
        for root,_,fs in os.walk(os.path.join(REPO,d)):
            for f in sorted(fs):
                if not f.endswith('.rs'): continue
                t=open(os.path.join(root,f),errors='replace').read()
                t=re.sub(r'//[^\n]*','',t)
                for m in re.finditer(r'"((?:[^"\\\n]|\\.){0,60})"',t):
                    try: strs.add(json.loads('"%s"'%m.group(1)))
                    except Exception: pass
                for m in re.finditer(r"(?<![\w'])'([^'\\])'",t): strs.add(m.group(1))
                for m in re.finditer(r'(?<![\w.])(\d{1,4})(?:usize|u\d+|i\d+)?\b(?!\.)',t): ints.add(int(m.group(1)))
    with open(path,'w') as o:
        for s in sorted(strs): o.write('s '+json.dumps(s,ensure_ascii=False)+'\n')
        for i in sorted(x for x in ints if x<=4096): o.write('i %d\n'%i)
    return len(strs),len(ints)

class Driver:
    def __init__(self,crate): self.crate=crate; self.err=None; self.bin=None
    def build(self):
        d=os.path.join(V,'harness',self.crate)
        rc,o,e=cargo(['build','--offline','-q'],d,self.crate)
        if rc!=0: self.err=e[-6000:]; return False
        self.bin=os.path.join(T,self.crate,'debug','vp_'+self.crate); return True
    def run(self,args,timeout):
        rc,o,e=sh([self.bin]+args,timeout=timeout,cwd=T)
        return rc,o,e

def run_core(drv,prop,seed,cases,secs,dic,extra=()):
    """-> (fail or None, stats)"""
    args=[prop,'--seed',str(seed),'--cases',str(cases),'--secs',str(secs),'--dict',dic]+list(extra)
    rc,o,e=drv.run(args,secs+120)
    st=dict(cases=0,distinct=0,samples=[],cmd=' '.join(['vp_'+drv.crate]+args))
    m=re.search(r'^DONE cases=(\d+) distinct=(\d+)',o,re.M)
    if m: st['cases'],st['distinct']=int(m.group(1)),int(m.group(2)); st['samples']=[l[7:] for l in o.splitlines() if l.startswith('SAMPLE ')]
    if rc==0 and m: return None,st
    m=re.search(r'^FAIL case=(\d+)\n(.*)',o,re.S|re.M)
    if m: return dict(case=int(m.group(1)),text=m.group(2)),st
    return dict(case=None,crash=True,rc=rc,text='the driver ended with %s\n%s\n%s'%(rc,o[-500:],e[-3000:]),at=(re.findall(r'^AT (\d+)',o,re.M) or ['0'])[-1]),st

# ------------------------------------------------------------------------------------------- verdict
def drive(fn,ctx):
    try: return fn(ctx)
    except Exception:
        import traceback; return dict(cases=0,notes=['the driver itself failed: '+traceback.format_exc()[-800:]])

def main():
    prop=sys.argv[1]; t0=time.time()
    tier=os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv: tier='thorough'
    seed=int(os.environ.get('VERIF_SEED') or 1)
    P=PROPS[prop]
    work=os.path.join(T,'work',prop); shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    rep=os.path.join(V,'evidence','replay-%s.txt'%prop)
    if os.path.exists(rep): os.remove(rep)
    lines=[]
    def log(s): lines.append(s); print('  '+s,flush=True)
    proofs=[]; drivers={}
    def do_proof():
        try:
            f=os.path.join(work,'opg_exp.rs')
            err=expand(f) if any('$EXP' in pr['files'] for pr in P['proofs']) else None
            ts=[]
            for pr in P['proofs']:
                files=[]
                for x in pr['files']:
                    if x=='$DERIVE': files+=stage_files(work,('opg.rs','bound.rs'))
                    elif x=='$PCX': files+=pcx_file(work)
                    elif x=='$STAGE': files+=stage_files(work)
                    elif x=='$BOUND': files+=stage_files(work,())
                    elif x=='$ALT':
                        a=os.path.join(work,'alt_exp.rs'); e2=None if err else expand_alt(a,f)
                        if e2: log('the crate does not expand without const_generics: '+e2[-300:])
                        elif not err: files.append(a)
                    elif x in('$ARMS','$TYPES'):
                        k=x[1:].lower(); a=os.path.join(work,k+'_exp.rs'); e2,gone=expand_arms(a,k)
                        if gone: log('arms that no longer take the declared items: '+', '.join(gone))
                        if e2: log('the arms do not expand: '+e2[-300:])
                        else: files.append(a)
                    else: files.append(x.replace('$EXP',f))
                if err and f in files: proofs.append(dict(name=pr['name'],ran=False,reason='the crate does not expand: '+err)); continue
                def one(pr=pr,files=files):
                    try: proofs.append(prove(pr['name'],pr['specs'],pr.get('preludes',[]),files,work,log,thorough=tier=='thorough',str_args=pr.get('str_args',False),elsewhere=pr.get('elsewhere',()),collect=pr.get('collect',False)))
                    except Exception:
                        import traceback; proofs.append(dict(name=pr['name'],ran=False,reason=traceback.format_exc()))
                t=threading.Thread(target=one); t.start(); ts.append(t)
            for t in ts: t.join()
        except Exception as e:
            import traceback; proofs.append(dict(name='?',ran=False,reason=traceback.format_exc()))
    th=threading.Thread(target=do_proof); th.start()
    nd=dictionary(os.path.join(work,'dict'))
    runs=[]; fails=[]
    deadline=t0+(600 if tier=='quick' else 3000)
    for h in P['drivers']:
        r=drive(h['fn'],dict(prop=prop,seed=seed,tier=tier,work=work,dict=os.path.join(work,'dict'),log=log,V=V,T=T,secs=h['secs'][tier],scale=1,deadline=deadline,cargo=cargo,sh=sh,Driver=Driver,run_core=run_core))
        runs.append(r)
        if r.get('fail'): fails.append(r)
    th.join()
    broken=[]; incon=[]
    for p in proofs:
        if not p['ran']: incon.append(dict(kind='proof',fn=p['name'],msg=p['reason'],tags=[prop])); log('proof %s did not run: %s'%(p['name'],p['reason'][:300])); continue
        for d in p['failed']:
            if prop in d['tags']: broken.append(d)
            elif prop in d.get('side',[]): incon.append(d)
        for d in p['inconclusive']:
            if prop in d['tags'] or prop in d.get('side',[]) or d['tags']==['dep']: incon.append(d)
        for k,m in p['external'].items():
            if any(prop in c['tags'] for c in p['clauses'] if c['fn']==k): incon.append(dict(kind='unsupported',fn=k,msg=m,tags=[prop]))
        if p.get('smoke') and p['smoke']['vacuous']: log('vacuous contracts: %s'%p['smoke']['vacuous'])
    # a failed or missing proof: look harder for a failing input
    if (broken or incon) and not fails:
        log('looking harder for a failing input')
        for h in P['drivers']:
            r=drive(h['fn'],dict(prop=prop,seed=seed+1000,tier=tier,work=work,dict=os.path.join(work,'dict'),log=log,V=V,T=T,secs=min(150,h['secs'][tier]*5),scale=8,deadline=deadline,cargo=cargo,sh=sh,Driver=Driver,run_core=run_core))
            runs.append(r)
            if r.get('fail'): fails.append(r); break
    violations=[]
    if fails:
        f=fails[0]
        body='property %s\nfailing input found on the real crate\n%s\n'%(prop,f['fail'])
        if broken: body+='\nfailed obligations:\n'+'\n'.join(describe(d) for d in broken)
        open(rep,'w').write(body); violations.append('VIOLATION property=%s replay=%s'%(prop,rep))
    elif broken:
        body='property %s\nno failing input found; failed obligations:\n'%prop+'\n'.join(describe(d) for d in broken)
        open(rep,'w').write(body); violations.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,rep))
    ev=evidence(prop,tier,seed,P,proofs,runs,broken,incon,violations,time.time()-t0,nd)
    open(os.path.join(V,'evidence',prop+'.json'),'w').write(json.dumps(ev,indent=1,ensure_ascii=False))
    for r in runs:
        for k in r.get('known',[]): print('KNOWN-FINDING: property=%s %s'%(prop,k))
    c=ev['coverage']
    print('%s %s: %s obligations of %d functions, %d discharged; driver cases %s; %d inconclusive; %.0f s'%(prop,tier,c['obligations'],len(c['functions_under_contract']),c['discharged'],c.get('driver_cases'),len(incon),time.time()-t0))
    for d in incon: print('  bounded only: %s %s %s'%(d['kind'],d.get('fn'),str(d.get('msg'))[:160]))
    for v in violations: print(v)
    sys.exit(1 if violations else 0)

def describe(d):
    return '%s: %s failed in %s\n  clause: %s\n%s'%(','.join(d['tags']),d['kind'],d['fn'],(d['clause'] or {}).get('expr') or d['clause'],d['rendered'])

def evidence(prop,tier,seed,P,proofs,runs,broken,incon,violations,wall,nd):
    ob=[]; fns=[]; smt=0; cmds=[]; ass=[]; inl={}; smoke=[]; deps=0; depok=0
    for p in proofs:
        if not p['ran']: continue
        smt+=p['smt_ms']; cmds.append(p['cmd'])
        for c in p['clauses']:
            if prop in c['tags']: ob.append(c)
            else: deps+=1; depok+=bool(c['ok'])
        for f in p['functions']:
            if prop in f['tags']: fns.append(dict(function=f['key'],status=f['kind']))
        ass+=p['assumed']; inl.update(p['inlined'])
        if p.get('smoke'): smoke.append(p['smoke'])
    cov=dict(
        obligations=len(ob), discharged=sum(1 for c in ob if c['ok']),
        checker_cmd='; '.join(cmds) or 'verus (did not run)',
        trusted_base=['verus 0.2026.09.13 and its z3 back end','rustc macro expansion (-Zunpretty=expanded)','tools/vpx extraction (DESIGN.md, What the extraction changes)','spec/prelude.rs: assumed contracts of std (listed under assumptions)']+P.get('trusted',[]),
        functions_under_contract=fns, back_end='z3 via verus', solver_seconds=smt/1000.0,
        verus_verified_items=sum(p.get('verified',0) for p in proofs if p['ran']),
        obligations_of_other_properties_relied_on=deps, of_those_discharged=depok,
        failed_obligations=[dict(function=d['fn'],kind=d['kind'],clause=str((d['clause'] or {}).get('expr'))) for d in broken],
        bounded_only=[dict(function=d.get('fn'),kind=d['kind'],reason=str(d.get('msg'))[:300]) for d in incon],
        helpers_inlined=inl,
        driver_cases=sum(r.get('cases',0) for r in runs), driver_distinct_nontrivial=sum(r.get('distinct',0) for r in runs),
        driver_rule=P.get('rule',''), driver_role='bounded: executes the real crate on generated inputs; validates the assumed contracts and stands in for what is not proved',
        samples=[s for r in runs for s in r.get('samples',[])][:6],
        driver_commands=[r['cmd'] for r in runs if r.get('cmd')],
        driver_notes=[n for r in runs for n in r.get('notes',[])],
        source_literals_used=dict(strings=nd[0],numbers=nd[1]),
    )
    if smoke: cov['vacuity']=smoke
    seen=[]
    for a in ass:
        if a not in seen: seen.append(a)
    return dict(property=prop,tier=tier,seed=seed,level=P['level'],coverage=cov,assumptions=P.get('assumptions',[])+seen,wall_s=round(wall,1),violations=len(violations))

if __name__=='__main__': main()
