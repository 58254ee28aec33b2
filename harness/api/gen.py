"""Random describe_api! descriptions with the document each should produce (C12)."""
import random, json

S=lambda n:{'$ref':'#/components/schemas/'+n}
NAMED={'Alpha':({'type':'object','properties':{'a':{'type':'integer','format':'uint8'}},'required':['a']},[]),
 'Beta':({'type':'object','properties':{'x':S('Alpha')},'required':['x']},['Alpha']),
 'Gamma':({'type':'string','format':'g'},[]),
 '\u00dcnit':({'type':'string','format':'u'},[]),'lower':({'type':'integer','format':'int32'},[]),
 'Delta':({'type':'string','enum':['One','Two'],'example':'One'},[])}
PRELUDE='''use opg::*; use serde::Serialize;
#[derive(Serialize, OpgModel)] pub struct Alpha { a: u8 }
#[derive(Serialize, OpgModel)] pub struct Beta { x: Alpha }
pub mod inner { use super::*; #[derive(Serialize, OpgModel)] #[opg(format = "g")] pub struct Gamma(String); }
#[allow(non_camel_case_types)] #[derive(Serialize, OpgModel)] pub struct lower(i32);
#[derive(Serialize, OpgModel)] #[opg(format = "u")] pub struct \u00dcnit(String);
#[derive(Serialize, OpgModel)] pub enum Delta { One, Two }'''
BASE=[('Alpha',S('Alpha'),['Alpha']),('Beta',S('Beta'),['Beta']),('inner::Gamma',S('Gamma'),['Gamma']),('crate::inner::Gamma',S('Gamma'),['Gamma']),('Delta',S('Delta'),['Delta']),('\u00dcnit',S('\u00dcnit'),['\u00dcnit']),('lower',S('lower'),['lower']),
 ('String',{'type':'string'},[]),('u32',{'type':'integer','format':'uint32'},[]),('bool',{'type':'boolean'},[]),('f64',{'type':'number','format':'double'},[]),
 ('uuid::Uuid',{'type':'string','format':'uuid','example':'00000000-0000-0000-0000-000000000000','description':'UUID ver. 4 [rfc](https://tools.ietf.org/html/rfc4122)'},[])]
METHODS=['GET','PUT','POST','DELETE','OPTIONS','HEAD','PATCH','TRACE']
REASONS={200:'OK',201:'Created',204:'No Content',302:'Found',400:'Bad Request',401:'Unauthorized',404:'Not Found',409:'Conflict',418:"I'm a teapot",500:'Internal Server Error',503:'Service Unavailable',299:'',599:'',999:'',0:'',42:''}
TEXTS=['some text','','quote \\" inside','{braces} / slash','\\u{e9}t\\u{e9}']
def unesc(t): return t.replace('\\"','"').replace('\\u{e9}','\u00e9')

class Api:
    def __init__(s,r,idx):
        s.r=r; s.idx=idx; s.lets=[]; s.schemas=set(); s.schemes={}; s.n=0
        s.build(); s.src='describe_api! { %s }'%s.text
    # ---- values
    def uid(s): s.n+=1; return s.n
    def lit(s): t=s.r.choice(TEXTS); return '"%s"'%t,unesc(t)
    def expr(s):
        """text and value of an expression that is text"""
        x=s.r.random(); l,v=s.lit()
        if x<.5: return l,v
        n='v%d'%s.uid()
        if x<.7: s.lets.append('let %s = %s.to_owned();'%(n,l)); return n,v
        if x<.85: s.lets.append('let %s = %s;'%(n,l)); return n,v
        return s.r.choice([('1 + 2','3'),('format!("{}-{}", 1, %s)'%l,'1-'+v),("'c'",'c'),('if true { "yes" } else { "no" }','yes')])
    def refexpr(s):
        x=s.r.random(); l,v=s.lit()
        if x<.6: return l,v
        n='v%d'%s.uid(); s.lets.append('let %s = %s.to_owned();'%(n,l)); return '&'+n,v
    def boolean(s):
        b=s.r.random()<.5
        return s.r.choice([str(b).lower(),str(b).lower(),'!%s'%str(not b).lower(),'1 + 1 == %d'%(2 if b else 3)]),b
    def need(s,ns):
        for n in ns:
            if n not in s.schemas: s.schemas.add(n); s.need(NAMED[n][1])
    def ty(s,generic=True):
        t,sc,ns=s.r.choice(BASE); s.need(ns)
        x=s.r.random()
        if generic and x<.15: return 'Vec<%s>'%t,{'type':'array','items':sc}
        if generic and x<.2: return 'std::vec::Vec<%s>'%t,{'type':'array','items':sc}
        if generic and x<.25 and '$ref' not in sc: return 'Option<%s>'%t,dict(sc,nullable=True)
        return t,sc
    def comma(s,items,may=True): return ', '.join(items)+(',' if items and may and s.r.random()<.3 else '')
    def ident(s,p): return p+str(s.uid())
    # ---- parts
    def params(s,out):
        items=[]
        for _ in range(s.r.randint(1,3)):
            ps=[]; d={}
            if s.r.random()<.5:
                # its name is an expression
                t,v=s.expr(); v='%s'%v
                n='"h%d"'%s.uid(); v=n.strip('"')
                if s.r.random()<.2: x='v%d'%s.uid(); s.lets.append('let %s = %s.to_owned();'%(x,n)); n=x
                head='(header %s)'%n; d={'name':v,'in':'header','required':True,'schema':{'type':'string'}}
            else:
                n=s.ident('q'); t,sc=s.ty(); head='(query %s: %s)'%(n,t); d={'name':n,'in':'query','schema':sc}
            if s.r.random()<.6:
                k=['description','required','deprecated','schema']; s.r.shuffle(k)
                for f in k[:s.r.randint(0,4)]:
                    if f=='description': t,v=s.expr(); d[f]=v
                    elif f=='schema': t,v=s.ty(); d[f]=v
                    else:
                        t,v=s.boolean(); d.pop(f,None)
                        if v: d[f]=True
                    ps.append('%s: %s'%(f,t))
                head+=': { %s }'%s.comma(ps)
            items.append(head); out[d['name']]=d
        return 'parameters: { %s }'%s.comma(items)
    def security(s):
        groups=[]; out=[]
        for _ in range(s.r.randint(1,3)):
            g={}; its=[]
            for _ in range(s.r.randint(1,3)):
                roles=None; rt=''
                if s.r.random()<.4:
                    roles=['r%d'%i for i in range(s.r.randint(0,3))]; rt='[%s]'%', '.join('"%s"'%x for x in roles)
                if s.r.random()<.5: n='s%d'%s.uid(); its.append('"%s"%s'%(n,rt))
                else:
                    n=s.scheme_var(); its.append(n+rt)
                g[n]=roles or []
            groups.append(' && '.join(its)); out.append(g)
        return 'security: { %s }'%s.comma(groups),out
    def scheme_var(s,mention=True):
        n='auth%d'%s.uid(); k=s.r.randint(0,2); l,v=s.lit()
        if k==0: c='ApiKeySecurityScheme { parameter_in: ParameterIn::Cookie, name: "n".to_owned(), description: Some(%s.to_owned()) }'%l; j={'type':'apiKey','in':'cookie','name':'n','description':v}; w='SecurityScheme::ApiKey'
        elif k==1: c='HttpSecurityScheme::Basic { description: None }'; j={'type':'http','scheme':'basic'}; w='SecurityScheme::Http'
        else: c='HttpSecurityScheme::Bearer { format: Some(%s.to_owned()), description: None }'%l; j={'type':'http','scheme':'bearer','bearerFormat':v}; w='SecurityScheme::Http'
        if not mention or s.r.random()<.3: c='%s(%s)'%(w,c)
        s.lets.append('let %s = %s;'%(n,c)); s.schemes[n]=j
        return n
    def body(s):
        t,sc=s.ty(); content={'application/json':{'schema':sc}}
        if s.r.random()<.5: return 'body: %s'%t,{'description':'','required':True,'content':content}
        d={'description':'','required':True}; ps=['schema: '+t]
        if s.r.random()<.6: l,v=s.lit(); ps.append('description: '+l); d['description']=v
        if s.r.random()<.6:
            b=s.r.random()<.5; ps.append('required: %s'%str(b).lower())
            if not b: d.pop('required')
        s.r.shuffle(ps); d['content']=content
        return 'body: { %s }'%s.comma(ps),d
    def response(s,code):
        d={'description':REASONS[code]}; t=str(code)
        if s.r.random()<.4: l,v=s.lit(); t+='(%s)'%l; d['description']=v
        x=s.r.random()
        if x<.2: t+=': None'
        elif x<.35: t+=': ()'; d['content']={'application/json':{'schema':{'type':'string','format':'null','nullable':True,'description':'Always `null`'}}}
        elif x<.45: t+=': { Some(ModelReference::Any) }'; d['content']={'application/json':{'schema':{}}}
        elif x<.5: t+=': { None }'
        else: y,sc=s.ty(); t+=': '+y; d['content']={'application/json':{'schema':sc}}
        return t,d
    def operation(s,depth):
        d={'responses':{}}; its=[]
        k=['summary','operationId','description','deprecated','tags','parameters','security','body','callbacks']
        for f in s.r.sample(k,s.r.randint(0,len(k))):
            if f in('summary','operationId','description'): t,v=s.refexpr(); its.append('%s: %s'%(f,t)); d[f]=v
            elif f=='deprecated':
                t,v=s.boolean(); its.append('deprecated: '+t)
                if v: d[f]=True
            elif f=='tags':
                ts=[s.r.choice(['alpha','beta','gamma']) for _ in range(s.r.randint(0,3))]; its.append('tags: { %s }'%s.comma(ts))
                if ts: d['tags']=ts
            elif f=='parameters':
                o={}; its.append(s.params(o)); d['parameters']=[o[n] for n in sorted(o)]
            elif f=='security': t,v=s.security(); its.append(t); d['security']=v
            elif f=='body': t,v=s.body(); its.append(t); d['requestBody']=v
            elif f=='callbacks' and depth>0:
                cs=[]; out={}
                for _ in range(s.r.randint(1,2)):
                    if s.r.random()<.5: n='c%d'%s.uid(); t=n
                    else: n='call back %d'%s.uid(); t='"%s"'%n
                    pt,pj,_=s.paths(depth-1,s.r.randint(0,2)); cs.append('%s: { %s }'%(t,pt)); out[n]=pj
                its.append('callbacks: { %s }'%s.comma(cs)); d['callbacks']=out
        for c in s.r.sample(sorted(REASONS),s.r.randint(0,3)):
            t,v=s.response(c); its.append(t); d['responses'][str(c)]=v
        s.r.shuffle(its)
        return '{ %s }'%s.comma(its),d
    def path(s,depth):
        segs=[]; url=''; d={}; ps={}
        for i in range(s.r.randint(1,4)):
            x=s.r.random()
            if x<.5: l='p%d'%s.uid(); segs.append('"%s"'%l); url+='/'+l
            elif x<.75: n=s.ident('id'); t,sc=s.ty(); segs.append('{ %s: %s }'%(n,t)); url+='/{%s}'%n; ps[n]={'name':n,'in':'path','required':True,'schema':sc}
            else:
                t,sc=s.ty(False); n=t.rsplit(':',1)[-1]; n=(n[0].lower() if n[0]<'\x7f' else n[0])+n[1:]
                if n in ps: segs.append('"again"'); url+='/again'
                else: segs.append(t); url+='/{%s}'%n; ps[n]={'name':n,'in':'path','required':True,'schema':sc}
        url+='/u%d'%s.uid(); segs.append('"%s"'%url.rsplit('/',1)[1])
        its=[]
        for f in('summary','description'):
            if s.r.random()<.3: l,v=s.lit(); its.append('%s: %s'%(f,l)); d[f]=v
        if s.r.random()<.3: its.append(s.params(ps))
        for m in s.r.sample(METHODS,s.r.randint(0,3)):
            t,v=s.operation(depth); its.append('%s: %s'%(m,t)); d[m.lower()]=v
        s.r.shuffle(its)
        if ps: d['parameters']=[ps[n] for n in sorted(ps)]
        return '(%s): { %s }'%(' / '.join(segs),s.comma(its)),url,d
    def paths(s,depth,n,top=False):
        its=[]; d={}; order=[]
        for _ in range(n):
            t,u,v=s.path(depth); its.append(t); d[u]=v; order.append(u)
        return s.comma(its,top),d,order
    def build(s):
        r=s.r; w={'openapi':'3.0.3','info':{'title':'','version':''}}; secs=[]; s.order=[]
        for f in r.sample(['info','tags','servers','security_schemes','paths'],r.randint(1,5)):
            if f=='info':
                its=[]
                for k in r.sample(['title','version','description'],r.randint(0,3)): t,v=s.expr(); its.append('%s: %s'%(k,t)); w['info'][k]=v
                secs.append('info: { %s }'%s.comma(its))
            elif f=='tags':
                ts={}; its=[]
                for k in r.sample(['alpha','beta','gamma','Zeta'],r.randint(0,4)):
                    ts[k]={'name':k}
                    if r.random()<.5: t,v=s.expr(); its.append('%s(%s)'%(k,t)); ts[k]['description']=v
                    else: its.append(k)
                if ts: w['tags']=[ts[k] for k in sorted(ts)]
                secs.append('tags: { %s }'%s.comma(its))
            elif f=='servers':
                out=[]; its=[]
                def one():
                    l,v=s.lit()
                    if r.random()<.7: return l,v
                    n='v%d'%s.uid(); s.lets.append('let %s = %s%s;'%(n,l,r.choice(['','.to_owned()']))); return n,v
                for _ in range(r.randint(0,3)):
                    t,v=one(); d={'url':v}
                    if r.random()<.5: t2,v2=one(); t+='(%s)'%t2; d['description']=v2
                    its.append(t); out.append(d)
                if out: w['servers']=out
                secs.append('servers: { %s }'%s.comma(its))
            elif f=='security_schemes':
                its=[]
                for _ in range(r.randint(0,4)):
                    x=r.random()
                    if x<.2: its.append(s.scheme_var(False)); continue
                    n='sch%d'%s.uid(); ps=[]; d={}
                    if x<.6:
                        bearer=r.random()<.5; d={'type':'http','scheme':'bearer' if bearer else 'basic'}; ps.append('scheme: %s'%('Bearer' if bearer else 'Basic'))
                        if bearer and r.random()<.6: t,v=s.expr(); ps.append('bearer_format: '+t); d['bearerFormat']=v
                        head='(http "%s")'%n
                    else:
                        t,v=s.expr(); d={'type':'apiKey','in':'header','name':v}; ps.append('name: '+t)
                        if r.random()<.7: i=r.choice(['Query','Header','Cookie']); ps.append('parameter_in: '+i); d['in']=i.lower()
                        head='(apiKey "%s")'%n
                    if r.random()<.5: t,v=s.expr(); ps.append('description: '+t); d['description']=v
                    r.shuffle(ps); its.append('%s: { %s }'%(head,s.comma(ps))); s.schemes[n]=d
                secs.append('security_schemes: { %s }'%s.comma(its))
            else:
                t,v,s.order=s.paths(2,r.randint(0,3),True); secs.append('paths: { %s }'%t)
                if v: w['paths']=v
        c={}
        if s.schemas: c['schemas']={n:NAMED[n][0] for n in s.schemas}
        if s.schemes: c['securitySchemes']=s.schemes
        w['components']=c
        s.want=w; s.text=s.comma(secs)

def generate(seed,n):
    r=random.Random(seed); defs=[Api(r,i) for i in range(n)]
    lines=PRELUDE.split('\n'); where={}
    for i,d in enumerate(defs):
        lines.append('fn run%d() { %s let opg = %s; out(%d, opg); }'%(i,' '.join(d.lets),d.src,i)); where[len(lines)]=d
    lines.append('fn out(i: usize, o: Opg) { println!("{}", serde_json::json!({"i": i, "doc": serde_json::to_value(&o).unwrap(), "order": o.paths.iter().map(|p| serde_json::to_value(&p.0).unwrap()).collect::<Vec<_>>()})); }')
    lines.append('fn main() { %s }'%' '.join('run%d();'%i for i in range(n)))
    return defs,'\n'.join(lines)+'\n',where
def diff(a,b,path=''):
    if isinstance(a,dict) and isinstance(b,dict):
        for k in list(a)+[k for k in b if k not in a]:
            if k not in a: return '%s.%s is missing, expected %s'%(path,k,json.dumps(b[k],ensure_ascii=False))
            if k not in b: return '%s.%s is there but not declared: %s'%(path,k,json.dumps(a[k],ensure_ascii=False))
            x=diff(a[k],b[k],'%s.%s'%(path,k))
            if x: return x
        return None
    if isinstance(a,list) and isinstance(b,list) and len(a)==len(b) and not path.endswith('.required'):
        for i,(x,y) in enumerate(zip(a,b)):
            z=diff(x,y,'%s[%d]'%(path,i))
            if z: return z
        return None
    return None if a==b else '%s is %s, expected %s'%(path,json.dumps(a,ensure_ascii=False),json.dumps(b,ensure_ascii=False))
def judge(d,o):
    x=diff(o['doc'],d.want)
    if x: return x
    if o['order']!=d.order: return 'paths in the order %s, expected %s'%(o['order'],d.order)
    return None
def context(defs,d): return ' '.join(d.lets)+'\n'+d.src
