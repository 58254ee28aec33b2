"""Puts contracts (spec/*.spec) on the functions vpx extracted, and writes one Verus file.

Spec file format (line oriented):
  %%use NAME...                types taken from the extracted source (in source order)
  %%raw                        Verus text copied to the module (spec functions, lemmas)
  %%trait KEY                  extra items of a trait
  %%impl REGEX                 extra items of every impl whose key matches ($1.. substituted)
  %%before REGEX               text put in front of every impl whose key matches
  %%fn REGEX                   contract for functions whose key matches
      decreases EXPR
      attr ATTR
      requires [tag] EXPR
      ensures [tag] EXPR       tag = comma separated property ids, or `dep` for support clauses
      loop N inv [tag] EXPR    (tag optional)  loop N start|end|before|after PROOF-TEXT
      begin PROOF-TEXT | end PROOF-TEXT
      also [tag] TEXT          an obligation inherited from a trait of the prelude (counted, not emitted)
      external                 contract assumed (body not verified)
  Continuation lines start with whitespace deeper than the directive (joined).
"""
import os, re, json

def norm(k):
    k = re.sub(r'\s*([<>])\s*', r'\1', k)
    k = re.sub(r"\s+", " ", k)
    k = re.sub(r",(?=[^\s)])", ", ", k)
    k = re.sub(r">\s*as\b", "> as", k)
    return k.strip()

class Spec:
    def __init__(self):
        self.uses=[]; self.raw=[]; self.traits={}; self.impls=[]; self.fns=[]; self.skip=[]; self.consts=[]; self.before=[]; self.elsewhere=[]
    def load(self, path, elsewhere=False):
        n0=len(self.fns)
        sec=None; arg=None; buf=[]
        def flush():
            if sec is None: return
            if sec=='use': self.uses += (arg+' '+' '.join(buf)).split()
            elif sec=='raw': self.raw.append('\n'.join(buf))
            elif sec=='trait': self.traits[arg]='\n'.join(buf)
            elif sec=='impl': self.impls.append((arg,'\n'.join(buf)))
            elif sec=='before': self.before.append((arg,'\n'.join(buf)))
            elif sec=='skip': self.skip.append(arg)
            elif sec=='fn':
                ds=[]; base=None
                for l in buf:
                    if not l.strip() or l.strip().startswith('//'): continue
                    ind=len(l)-len(l.lstrip())
                    if base is None: base=ind
                    if ind>base and ds: ds[-1]+='\n'+l.strip()
                    else: ds.append(l.strip())
                self.fns.append((arg,ds))
        for line in open(path):
            line=line.rstrip('\n')
            m=re.match(r'%%(\w+)\s*(.*)$',line)
            if m:
                flush(); sec=m.group(1); arg=m.group(2).strip(); buf=[]
            elif line.startswith('%#'): continue
            else: buf.append(line)
        flush()
        if elsewhere: self.elsewhere+=[r for r,_ in self.fns[n0:]]
    def proved_elsewhere(self, key):
        return any(re.fullmatch(r,key) for r in self.elsewhere)
    dropped=frozenset()     # functions the contract of which no longer fits their signature
    def known(self, key):
        return key not in self.dropped and any(re.fullmatch(r,key) for r,_ in self.fns)

class Gen:
    """lines of the generated file plus, per line, what obligation it states"""
    def __init__(self): self.lines=[]; self.meta={}; self.fnlines=[]
    def add(self, text, **meta):
        for l in text.split('\n'):
            self.lines.append(l)
            if meta: self.meta[len(self.lines)]=meta
    def text(self): return '\n'.join(self.lines)+'\n'

def parse_ds(ds, m):
    d={'requires':[],'ensures':[],'loops':{},'attr':[],'decreases':None,'begin':[],'end':[],'external':False,'ret':None,'params':{},'also':[]}
    for x in ds:
        for i,g in enumerate(m.groups() if m else (),1): x=x.replace('$L%d'%i,(g or '').lower()).replace('$U%d'%i,(g or '').capitalize()).replace('$%d'%i, g or '')
        w,_,rest=x.partition(' ')
        if w in('requires','ensures'):
            mm=re.match(r'\[([^\]]*)\]\s*(.*)$',rest,re.S)
            tag,e=(mm.group(1),mm.group(2)) if mm else ('dep',rest)
            d[w].append((tag,e))
        elif w=='loop':
            n,kind,t=rest.split(None,2)
            a,_,b=n.partition('-')
            for k in range(int(a),int(b or a)+1): d['loops'].setdefault(k,[]).append((kind,t.replace('$N',str(k))))
        elif w=='attr': d['attr'].append(rest)
        elif w=='decreases': d['decreases']=rest
        elif w in('begin','end'): d[w].append(rest)
        elif w=='external': d['external']=True
        elif w=='also':
            mm=re.match(r'\[([^\]]*)\]\s*(.*)$',rest,re.S); d['also'].append((mm.group(1),mm.group(2)))
        elif w=='pass': pass
        elif w=='ret': d['ret']=rest
        elif w=='param':
            n,_,t=rest.partition(' '); d['params'][n]=t
        else: raise Exception('bad directive '+x)
    return d

def param_names(f):
    """names of the parameters, the receiver aside"""
    return [re.match(r'(?:mut\s+)?(\w+|.)',p['text'].strip()).group(1) for p in f['params'] if not p['self']]
try: PARAMS=json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'spec','params.json')))     # names the contracts use (tools/meta/loops_gen.py)
except Exception: PARAMS={}
def renamed(ds, f):
    """the contract in the names the parameters have now; a shared receiver is left as it was"""
    if any(p['self'] and re.fullmatch(r"&\s*('\w+\s+)?self",p['text'].strip()) for p in f['params']): ds=[re.sub(r'\b(old|final)\(self\)','self',x) for x in ds]
    old=PARAMS.get(f['key']); new=param_names(f)
    if not old or old==new or len(old)!=len(new): return ds
    sub={a:b for a,b in zip(old,new) if a!=b and re.fullmatch(r'\w+',a+b) and '_' not in(a,b)}
    if not sub: return ds
    pat=re.compile(r'(?<![\w.$])(%s)(?![\w]|\s*:(?!:))'%'|'.join(map(re.escape,sub)))
    return [pat.sub(lambda m:sub[m.group(1)],x) for x in ds]

def loop_shape(body,n):
    """how loop n can be left: 'plain' (exhaustion only), a condition on vp_r (early exit sets it), or None"""
    i=body.find('VPINV_%d '%n)
    if i<0: return None
    j=body.index('{',i); d=0; k=j
    while True:
        c=body[k]
        if c=='{': d+=1
        elif c=='}':
            d-=1
            if d==0: break
        k+=1
    t=body[j:k+1]
    # nested loops leave by themselves
    while True:
        m=re.search(r'\b(loop|while[^{;]*) VPINV_\d+ \{',t[1:])
        if not m: break
        a=1+m.start(); q=1+m.end()-1; d=0
        while True:
            if t[q]=='{': d+=1
            elif t[q]=='}':
                d-=1
                if d==0: break
            q+=1
        t=t[:a]+t[q+1:]
    brk=len(re.findall(r'\bbreak\b',t))
    if brk==1: return 'plain'
    m=re.findall(r'(vp_r\d+) = (Err|Some|true|false)\b[^;]*;\s*break',t)
    if brk==2 and len(m)==1:
        r,v=m[0]
        return {'Err':r+' is Err','Some':r+' is Some','true':r,'false':'!'+r}[v]
    return None

def loop_signs(f):
    """structure of the loops of a function: how each is left, in which loop it lies, how often it continues, whether it builds a result"""
    body=f['body'] or ''; spans={}; out=[]
    for n in range(f['loops']):
        i=body.find('VPINV_%d '%n)
        if i<0: spans[n]=(0,0); continue
        j=k=body.index('{',i); d=0
        while True:
            if body[k]=='{': d+=1
            elif body[k]=='}':
                d-=1
                if d==0: break
            k+=1
        spans[n]=(j,k)
    for n,(a,b) in spans.items():
        par=[m for m,(x,y) in spans.items() if x<a and b<y]
        t=body[a:b]
        out.append('%s in %s, %d continue, %d return, %s%s'%(loop_shape(body,n),max(par,key=lambda m:spans[m][0]) if par else '-',len(re.findall(r'\bcontinue\b',t)),len(re.findall(r'\breturn\b',t)),'result' if 'vp_r%d'%n in body else 'no result','' if 'vp_it%d'%n in body else ', no iterator'))
    return out

def fn_text(g, f, spec, external, drop_tags, in_trait, vis_ok):
    """emit one function"""
    key=f['key']; d=None; alld=[]
    for r,ds in spec.fns:
        m=re.fullmatch(r,key)
        if m: alld.append(parse_ds(renamed(ds,f),m))
    d={'requires':[],'ensures':[],'loops':{},'attr':[],'decreases':None,'begin':[],'end':[],'external':False,'ret':None,'params':{}}
    for x in alld:
        for k in('requires','ensures','attr','begin','end'): d[k]+=x[k]
        for n,l in x['loops'].items(): d['loops'].setdefault(n,[]).extend(l)
        d['decreases']=x['decreases'] or d['decreases']; d['external']|=x['external']; d['ret']=x['ret'] or d['ret']; d['params'].update(x['params'])
    has_contract=bool(alld)
    away = spec.proved_elsewhere(key) and f['body'] is not None and not external
    ext = external or d['external'] or away
    start=len(g.lines)+1
    for a in d['attr']: g.add(a)
    if ext: g.add('#[verifier::external_body]')
    if f['loops'] and not ext: g.add('#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]')
    if f['body'] is not None: g.add('#[verifier::exec_allows_no_decreases_clause]')
    params=[]; muts=[]
    for p in f['params']:
        t=p['text']
        if p['self']:
            if p.get('mut'):
                t='self'; muts.append('self')
        else:
            if p.get('pat') in d['params']: t='%s: %s'%(p['pat'],d['params'][p['pat']])
            if t.startswith('_:'): t='_vp_unused%d:%s'%(len(params),t[2:])
            if t.startswith('mut '): t=t[4:]; muts.append(re.match(r'\w+',t).group(0))
        params.append(t)
    ret = ' -> (r: %s)'%(d['ret'] or f['ret']) if f['ret'] else ''
    pub = 'pub ' if vis_ok else ''
    g.add('%sfn %s%s(%s)%s %s'%(pub,f['name'],f['generics'],', '.join(params),ret,f['where']), fn=key, kind='sig')
    if d['requires']:
        g.add('    requires')
        for n,(tag,e) in enumerate(d['requires']):
            g.add('        (%s),'%e, fn=key, kind='requires', tag=tag, n=n)
    if d['ensures']:
        g.add('    ensures')
        for n,(tag,e) in enumerate(d['ensures']):
            g.add('        (%s),'%e, fn=key, kind='ensures', tag=tag, n=n, expr=e)
    if d['decreases'] and not away: g.add('    decreases %s'%d['decreases'])
    if f['body'] is None:
        g.add(';'); end=len(g.lines)
        g.fnlines.append((start,end,key,has_contract,ext,'decl')); return
    if ext:
        g.add('{ unimplemented!() }')
        g.fnlines.append((start,len(g.lines),key,has_contract,ext,'elsewhere' if away and not d['external'] else 'external')); return
    body=f['body']
    # `mut x` parameters: rebind
    pre=''
    for m in muts:
        if m=='self':
            body=re.sub(r'\bself\b','vp_self',body); pre+='let mut vp_self = self;\n'
        else: pre+='let mut %s = %s;\n'%(m,m)
    shapes={n:loop_shape(body,n) for n in range(f['loops'])}
    for n in range(f['loops']):
        L=d['loops'].get(n,[])
        invs=[t for k,t in L if k=='inv']; xinv=[t for k,t in L if k=='xinv']; ens=[t for k,t in L if k=='ens']
        dec=''
        if ('vp_it%d'%n) in body:
            xinv=['!vp_d%d'%n]+xinv
            invs=['vp_it%d.seq() == vp_s%d'%(n,n),'0 <= vp_it%d.pos() <= vp_s%d.len()'%(n,n)]+invs
            ens=['vp_d%d ==> vp_it%d.pos() == vp_s%d.len()'%(n,n,n)]+ens
            sh=shapes[n]
            if sh=='plain': ens.append('vp_d%d'%n)
            elif sh: xinv.append('!(%s)'%sh); ens.append('vp_d%d || %s'%(n,sh)); ens.append('vp_d%d ==> !(%s)'%(n,sh))
            dec='\n decreases vp_s%d.len() - vp_it%d.pos()'%(n,n)
            body=body.replace('VPBEFORE_%d;'%n,'let ghost vp_s%d = vp_it%d.seq(); let ghost mut vp_d%d = false; %s'%(n,n,n,' '.join(t for k,t in L if k=='before')))
            body=body.replace('VPDONE_%d;'%n,'proof { vp_d%d = true; }'%n)
        d1=[t for k,t in L if k=='dec']
        if d1: dec='\n decreases '+d1[0]
        def cl(kw,es): return '\n %s\n'%kw+''.join('  (%s), //@%s %d %s\n'%(re.sub(r'^\[[\w,~]+\]\s*','',t.replace('\n',' ')),kw,n,(re.match(r'\[([\w,~]+)\]',t) or [0,''])[1]) for t in es) if es else ''
        invtxt=cl('invariant_except_break',xinv)+cl('invariant',invs)+cl('ensures',ens)
        body=body.replace('VPINV_%d '%n, invtxt+dec+'\n')
        body=body.replace('VPLOOPSTART_%d;'%n,' '.join(t for k,t in L if k=='start'))
        body=body.replace('VPLOOPEND_%d;'%n,' '.join(t for k,t in L if k=='end'))
        body=body.replace('VPAFTER_%d;'%n,' '.join(t for k,t in L if k=='after'))
    begin='\n'.join(d['begin'])
    if SMOKE and has_contract: d['end'].append('assert(false);')
    if d['end']:
        # bind the result, run the closing proof, return it
        body='{\n%s%s\nlet vp_result = %s;\n%s\nvp_result }'%(pre,begin,body,'\n'.join(d['end']))
    elif pre or begin:
        body='{\n%s%s\n%s }'%(pre,begin,body)
    g.add(body, fn=key, kind='body')
    g.fnlines.append((start,len(g.lines),key,has_contract,ext,'verified'))

def norm_fn(f):
    f['key']=norm(f['key'])
    if f['impl']: f['impl']=norm(f['impl'])

def rename_generic(f):
    """the verifier wants the type parameter of a trait method to have the same name in every implementation"""
    m=re.match(r'<\s*(\w+)\s*(?:>|:)',f['generics'] or '')
    if not m or m.group(1)=='S': return
    r=lambda t: re.sub(r'\b%s\b'%m.group(1),'S',t) if t else t
    for k in('generics','ret','where','body'): f[k]=r(f[k])
    for p in f['params']: p['text']=r(p['text'])

def load_extract(path):
    d=json.load(open(path))
    for f in d['fns']:
        norm_fn(f)
        if f['key'].endswith(' as Serialize>::serialize'): rename_generic(f)
    for i in d['impls']:
        i['key']=norm(i['key']); i['fns']=[norm(k) for k in i['fns']]
    return d

def copy_defaults(ex, traits):
    """default method bodies of a trait are verified once per implementation that inherits them"""
    F={f['key']:f for f in ex['fns']}
    for t in ex['traits']:
        if t['key'] not in traits: continue
        defs=[k for k in t['fns'] if F[k]['body'] is not None]
        for im in ex['impls']:
            if not im['trait'] or re.sub(r'<.*','',im['trait']).strip()!=t['key']: continue
            have={k.rsplit('::',1)[1] for k in im['fns']}
            for k in defs:
                n=k.rsplit('::',1)[1]
                if n in have: continue
                c=dict(F[k]); c['key']=im['key']+'::'+n; c['impl']=im['key']; c['inherited']=k
                ex['fns'].append(c); im['fns'].append(c['key'])
        for k in defs:
            F[k]['body']=None; F[k]['loops']=0

SMOKE=False
def assemble(spec, ex, prelude, external=(), want=None, extra='', smoke=False):
    """returns Gen and info; `external`: keys to leave unverified"""
    global SMOKE
    SMOKE=smoke
    g=Gen()
    copy_defaults(ex, spec.traits)
    F={f['key']:f for f in ex['fns']}
    g.add('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_camel_case_types, unused_must_use, unreachable_code, unused_assignments, private_interfaces)]')
    g.add('use vstd::prelude::*;\nuse core::marker::PhantomData;\nverus! {')
    g.add(prelude)
    g.add('pub mod m {\nuse super::*;\nuse super::vp::*;\nbroadcast use {%s};'%', '.join(re.findall(r'pub broadcast (?:axiom|proof) fn (\w+)',prelude)))
    # `.$TYPE` in a contract: the only field of that struct
    one={t['name']:t['fields'][0] or '0' for t in ex['types'] if t['kind']=='struct' and len(t['fields'])==1}
    def field(x): return re.sub(r'\.\$([A-Z]\w+)',lambda m:'.'+one[m.group(1)] if m.group(1) in one else m.group(0),x)
    spec.fns=[(r,[field(x) for x in ds]) for r,ds in spec.fns]
    usecl=set(spec.uses)
    missing=[u for u in spec.uses if u not in {t['name'] for t in ex['types']}]
    for t in ex['types']:
        if t['name'] in usecl or t['name'].startswith('VpSerWith') and 'VpSerWith' in usecl:
            if t['name'] in ex.get('copy',[]) or any(re.match(r'<%s\b.* as Copy>'%t['name'],i['key']) for i in ex['impls']): g.add('#[derive(Clone, Copy%s)]'%(', PartialEq, Eq' if t['name'] in ex.get('eq',[]) else ''))
            g.add(t['text'])
            if t['name'] in ex.get('eq',[]) and t['name'] in ex.get('copy',[]): g.add('unsafe impl Structural for %s {}'%t['name'])
    done=set()
    for c in ex['consts']:
        if (c['name'] in usecl or c['ty'].strip() in usecl) and c['name'] not in done:
            done.add(c['name'])
            g.add(re.sub(r': &(?!\')',": &'static ",c['text'],count=1))
    for r in spec.raw: g.add(r, kind='raw')
    emitted=set()
    def wanted(k): return spec.known(k) or k in external
    # traits
    for t in ex['traits']:
        if t['key'] not in spec.traits: continue
        g.add('pub trait %s%s {'%(t['key'],t['generics']))
        g.add(spec.traits[t['key']])
        for a in t['assoc']: g.add(a)
        for k in t['fns']:
            fn_text(g,F[k],spec,k in external,(),True,False); emitted.add(k)
        g.add('}')
    for im in ex['impls']:
        extras=[(m,txt) for r,txt in spec.impls for m in [re.fullmatch(r,im['key'])] if m]
        ks=[k for k in im['fns'] if spec.known(k)]
        bef=[(m,txt) for r,txt in spec.before for m in [re.fullmatch(r,im['key'])] if m]
        if im['trait'] and not extras and not bef: continue
        if not im['trait'] and not ks: continue
        if any(re.fullmatch(s,im['key']) for s in spec.skip): continue
        for m,txt in bef:
            for i,gr in enumerate(m.groups(),1): txt=txt.replace('$L%d'%i,(gr or '').lower()).replace('$%d'%i, gr or '')
            g.add(txt)
        g.add(im['header']+' {')
        for m,txt in extras:
            for i,gr in enumerate(m.groups(),1): txt=txt.replace('$L%d'%i,(gr or '').lower()).replace('$%d'%i, gr or '')
            if '$TUPLE' in txt: txt=txt.replace('$TUPLE',', '.join('ref_of(%s::spec_name(), %s::spec_schema(), false, no_params())'%(x.strip(),x.strip()) for x in re.search(r'\((.*)\)',im['key']).group(1).split(',')))
            g.add(txt)
        for a in im['assoc']: g.add(a)
        for k in (im['fns'] if im['trait'] else ks):
            fn_text(g,F[k],spec,k in external,(),False,not im['trait']); emitted.add(k)
        g.add('}')
    for f in ex['fns']:
        if f['impl'] is None and f['key'] not in emitted and '::' not in f['key'] and spec.known(f['key']):
            fn_text(g,f,spec,f['key'] in external,(),False,True); emitted.add(f['key'])
    g.add(extra)
    g.add('}\n}\nfn main() {}')
    return g, emitted, missing
