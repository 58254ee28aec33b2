"""Random type definitions for the derive macro with the schema each should have (C10).

The expected schema is computed here from the definition alone: what serde writes for it, plus the documented
attributes. Values of every type are written by serde, and validated against the schema the macro produced.
"""
import random, json

RULES=['lowercase','UPPERCASE','PascalCase','camelCase','snake_case','SCREAMING_SNAKE_CASE','kebab-case','SCREAMING-KEBAB-CASE']
def snake(v): return ''.join(('_' if i and c.isupper() else '')+c.lower() for i,c in enumerate(v))
def variant_rule(r,v):
    return {None:lambda:v,'PascalCase':lambda:v,'lowercase':lambda:v.lower(),'UPPERCASE':lambda:v.upper(),'camelCase':lambda:v[:1].lower()+v[1:],
      'snake_case':lambda:snake(v),'SCREAMING_SNAKE_CASE':lambda:snake(v).upper(),'kebab-case':lambda:snake(v).replace('_','-'),
      'SCREAMING-KEBAB-CASE':lambda:snake(v).upper().replace('_','-')}[r]()
def pascal(v):
    o='';cap=True
    for c in v:
        if c=='_': cap=True
        else: o+=c.upper() if cap else c; cap=False
    return o
def field_rule(r,v):
    return {None:lambda:v,'lowercase':lambda:v,'snake_case':lambda:v,'UPPERCASE':lambda:v.upper(),'SCREAMING_SNAKE_CASE':lambda:v.upper(),
      'PascalCase':lambda:pascal(v),'camelCase':lambda:pascal(v)[:1].lower()+pascal(v)[1:],'kebab-case':lambda:v.replace('_','-'),
      'SCREAMING-KEBAB-CASE':lambda:v.upper().replace('_','-')}[r]()

def apply(s,p):
    s=dict(s)
    if '$ref' in s or s=={}: return s
    if p.get('description') is not None: s['description']=p['description']
    if 'type' in s:
        if p.get('nullable') is not None:
            s.pop('nullable',None)
            if p['nullable']: s['nullable']=True
        if s['type'] in('string','number','integer'):
            for k in('format','example'):
                if p.get(k) is not None: s[k]=p[k]
    return s

# ------------------------------------------------------------------ types of fields
PRIMS={'u8':('integer','uint8','7'),'i16':('integer','int16','-3'),'u32':('integer','uint32','70000'),'i64':('integer','int64','-1'),'usize':('integer',None,'9'),
 'f32':('number','float','0.5'),'f64':('number','double','2.25'),'bool':('boolean',None,'true'),'String':('string',None,'"text".to_owned()'),'char':('string','char',"'c'")}
class Ty:
    def __init__(s,k,*a): s.k=k; s.a=a
    def rust(s):
        k,a=s.k,s.a
        return {'prim':lambda:a[0],'str':lambda:"&'static str",'opt':lambda:'Option<%s>'%a[0].rust(),'vec':lambda:'Vec<%s>'%a[0].rust(),'box':lambda:'Box<%s>'%a[0].rust(),
          'map':lambda:'std::collections::BTreeMap<String, %s>'%a[0].rust(),'tup':lambda:'(%s)'%', '.join(x.rust() for x in a),'arr':lambda:'[%s; 2]'%a[0].rust(),
          'def':lambda:a[0].use(),'self':lambda:a[0].name+a[0].generics_use(),'param':lambda:a[0]}[k]()
    def name(s):
        if s.k in('box','opt'): return s.a[0].name()
        if s.k=='param': return s.a[1].name()
        if s.k=='def': return None if s.a[0].inline else s.a[0].name
        if s.k=='self': return s.a[0].name
        return None
    def schema(s):
        k,a=s.k,s.a
        if k=='prim':
            t,f,_=PRIMS[a[0]]; d={'type':t}
            if f: d['format']=f
            return d
        if k=='str': return {'type':'string'}
        if k=='box': return a[0].schema()
        if k=='param': return a[1].schema()
        if k=='opt': return apply(a[0].schema(),{'nullable':True})
        if k in('vec','arr'): return {'type':'array','items':a[0].mention(False,{})}
        if k=='map': return {'type':'object','additionalProperties':a[0].mention(False,{})}
        if k=='tup': return {'type':'array','items':{'oneOf':[x.mention(False,{}) for x in a]}}
        if k=='def': return a[0].schema()
        raise Exception(k)
    def mention(s,inline,p):
        k,a=s.k,s.a
        if k=='box': return a[0].mention(inline,p)
        if k=='param': return a[1].mention(inline,p)
        if s.name() is not None and not inline: return {'$ref':'#/components/schemas/'+s.name()}
        return apply(s.schema(),p)
    def value(s,r):
        k,a=s.k,s.a
        if k=='prim': return PRIMS[a[0]][2]
        if k=='str': return '"lit"'
        if k=='box': return 'Box::new(%s)'%a[0].value(r) if a[0].value(r) else None
        if k=='opt':
            v=a[0].value(r)
            if a[0].name() is not None or 'type' not in a[0].schema(): return 'Some(%s)'%v if v else None
            return r.choice(['None','Some(%s)'%v]) if v else 'None'
        if k=='self': return None
        if k=='vec': v=a[0].value(r); return r.choice(['vec![%s]'%v,'vec![]']) if v else 'vec![]'
        if k=='arr': v=a[0].value(r); return '[%s, %s]'%(v,v) if v else None
        if k=='map': v=a[0].value(r); return 'std::iter::once(("key".to_owned(), %s)).collect()'%v if v else 'std::collections::BTreeMap::new()'
        if k=='tup':
            v=[x.value(r) for x in a]
            return '(%s)'%', '.join(v) if all(v) else None
        if k=='param': return a[1].value(r)
        if k=='def':
            vs=a[0].values(r)
            return r.choice(vs) if vs else None
    def kind(s):
        """what serde writes, roughly"""
        return PRIMS[s.a[0]][0] if s.k=='prim' else 'string' if s.k=='str' else None

class Name:
    def __init__(s): s.name=None
IDENT=['alpha','beta_two','x','gamma_delta_eps','r#type','r#match','_lead','trail_','two__under','id2','with_9_num','aB','r#struct','zeta']
VIDENT=['First','SecondOne','Third','HTTPServer','X','Ab1c','Fourth_Under','Zed','AVeryLongVariantName','IDs']
TEXT=['some text','','quote \\" inside','multi word, punctuation!','#/x {}','\\u{e9}t\\u{e9}']
def text(r):
    t=r.choice(TEXT)
    return '"%s"'%t, t.replace('\\"','"').replace('\\u{e9}','\u00e9')

class Attrs: pass
def opg_attrs(r,items):
    """splits attribute items over one or more #[opg(..)]"""
    items=list(items); r.shuffle(items); out=''
    while items:
        n=r.randint(1,len(items)); out+='#[opg(%s)] '%', '.join(items[:n]); items=items[n:]
    return out
def common(r,a,items,params=True):
    a.description=None; a.format=None; a.example=None
    if r.random()<.4: t,v=text(r); items.append(t); a.description=v
    if params and r.random()<.3: t,v=text(r); items.append('format = '+t); a.format=v
    if params and r.random()<.3:
        if r.random()<.5: t,v=text(r); items.append('example = '+t); a.example=v
        else: t,v=r.choice([('1 + 2','3'),('VP_CONST','vp const'),('vp_fn(2)','4'),("'c'",'c'),('(vp_fn)(1) as u8','1')]); items.append('example_with = "%s"'%t); a.example=v
def params(*attrs):
    p={}
    for a in attrs:
        for k in('description','format','example'):
            if p.get(k) is None: p[k]=getattr(a,k)
        if p.get('nullable') is None: p['nullable']=True if getattr(a,'nullable',False) else None
    return p
def explicit_model(t,nullable,p):
    d={'type':t}
    if p.get('description') is not None: d['description']=p['description']
    if nullable: d['nullable']=True
    if t!='boolean':
        for k in('format','example'):
            if p.get(k) is not None: d[k]=p[k]
    return d
MATCH={'string':lambda:Ty('prim','String'),'integer':lambda:Ty('prim','u32'),'number':lambda:Ty('prim','f64'),'boolean':lambda:Ty('prim','bool')}

class Field:
    def __init__(s,r,g,ident,named,owner,explicit_ok=True):
        s.ident=ident; s.named=named; items=[]; s.serde=[]
        s.skip=False; s.optional=False; s.inline=False; s.nullable=False; s.explicit=None; s.rename=None
        common(r,s,items)
        if r.random()<.2: s.nullable=True; items.append('nullable')
        if r.random()<.2: s.inline=True; items.append('inline')
        if named and r.random()<.15: s.optional=True; items.append('optional')
        s.ty=g.ty(r,2,owner)
        if explicit_ok and r.random()<.2:
            s.explicit=r.choice(['string','integer','number','boolean','any']); items.append(s.explicit)
            if s.explicit!='any' and r.random()<.7: s.ty=MATCH[s.explicit]()
            elif s.explicit!='any' and r.random()<.5: s.ty=Ty('opt',MATCH[s.explicit]())
            s.match=s.ty.kind()==s.explicit
        if named and r.random()<.15:
            s.rename=r.choice(['renamed','re-named','X Y','type','9'])+str(g.uid())
            s.serde.append(r.choice(['rename = "%s"','rename(serialize = "%s", deserialize = "other")','rename(serialize = "%s")'])%s.rename)
        x=r.random()
        if x<.1: s.skip=True; s.serde.append(r.choice(['skip','skip_serializing']))
        elif x<.2 and named: s.optional=True; s.serde.append('skip_serializing_if = "vp_never"')
        elif x<.25 and named: s.serde.append('default')
        elif x<.3: s.serde.append('skip_deserializing')
        if s.skip and r.random()<.6: s.ty=None
        elif s.skip and s.ty.k in('self',): s.ty=None
        if s.inline and s.ty and ref_self(s.ty): s.ty=Ty('vec',Ty('self',owner))
        r.shuffle(items); s.items=items
    def source(s): return s.ident[2:] if s.ident.startswith('r#') else s.ident
    def out(s,rule): return s.rename if s.rename else field_rule(rule,s.source())
    def text(s,r):
        t=''
        if s.serde: t+='#[serde(%s)] '%', '.join(s.serde)
        o=opg_attrs(r,s.items)
        t=t+o if r.random()<.5 else o+t
        return t+('%s: '%s.ident if s.named else '')+('$t' if getattr(s,'via',False) else s.ty.rust() if s.ty else 'NotModel')
    def ref(s,inline,p):
        if s.explicit=='any': return {}
        if s.explicit: return explicit_model(s.explicit,s.nullable,p)
        return s.ty.mention(inline,p)
    def val(s,r): return s.ty.value(r) if s.ty else 'NotModel'
def fields(r,g,owner,n,named):
    ids=r.sample(IDENT,n); out=[]
    for i in range(n): out.append(Field(r,g,ids[i] if named else str(i),named,owner))
    return out
def unique(fs,rule): 
    ns=[f.out(rule) for f in fs]; return len(set(ns))==len(ns)
def obj(fs,rule,inline,desc=None):
    d={'type':'object'}
    if desc is not None: d['description']=desc
    ps={f.out(rule):f.ref(inline or f.inline,params(f)) for f in fs if not f.skip}
    if ps: d['properties']=ps
    q=[f.out(rule) for f in fs if not f.skip and not f.optional]
    if q: d['required']=q
    return d
def tup(fs,inline,desc=None):
    d={'type':'array','items':{'oneOf':[f.ref(inline or f.inline,params(f)) for f in fs if not f.skip]}}
    if desc is not None: d['description']=desc
    return d
def body(r,style,fs):
    if style=='unit': return ''
    return '{ %s }'%', '.join(f.text(r) for f in fs) if style=='named' else '(%s)'%', '.join(f.text(r) for f in fs)
def make(r,style,fs):
    vs=[f.val(r) for f in fs]
    if not all(vs): return None
    if style=='unit': return ''
    return '{ %s }'%', '.join('%s: %s'%(f.ident,v) for f,v in zip(fs,vs)) if style=='named' else '(%s)'%', '.join(vs)
def checkable(fs): return all(f.skip or not f.explicit or f.explicit=='any' or f.match for f in fs)

class Def:
    def __init__(s,r,g):
        s.name='T%d'%g.uid(); s.inline=False; s.nullable=False; s.explicit=None; s.rule=None; s.params=[]; s.unchecked=False
        s.variants=[]; s.fields=[]; s.serde=[]; s.items=[]; s.repr=False
        s.kind=r.choice(['struct']*5+['tuple','newtype','newtype','unit','unit','repr','ext','ext','int','int','adj','adj','unt','unt'])
        # generic parameters: (name, argument)
        if s.kind in('struct','ext','adj','newtype') and r.random()<.15: s.params.append(('T',g.ty(r,1,None)))
        common(r,s,s.items,s.kind=='newtype')
        if r.random()<.15: s.inline=True; s.items.append('inline')
        if r.random()<.15: s.nullable=True; s.items.append('nullable')
        if s.kind!='newtype' and r.random()<.4: s.rule=r.choice(RULES); s.serde.append(r.choice(['rename_all = "%s"','rename_all(serialize = "%s")','rename_all(serialize = "%s", deserialize = "lowercase")'])%s.rule)
        if r.random()<.1: s.serde.append('rename = "Other"')
        while True:
            s.fields=[]
            if s.kind=='struct': s.fields=fields(r,g,s,r.randint(0,5),True)
            if s.kind=='tuple': s.fields=fields(r,g,s,r.randint(2,4),False)
            if unique(s.fields,s.rule): break
        if s.kind=='newtype':
            while True:
                f=Field(r,g,'0',False,s)
                if not f.skip and f.ty.k!='self' and not f.explicit and not ref_self(f.ty): break
            s.fields=[f]
            if r.random()<.3:
                s.explicit=r.choice(list(MATCH)); s.items.append(s.explicit)
                if r.random()<.7: f.ty=MATCH[s.explicit]()
                if f.ty.kind()!=s.explicit: s.unchecked=True
            elif r.random()<.2:
                f.explicit=r.choice(list(MATCH)); f.items.append(f.explicit)
                if r.random()<.7: f.ty=MATCH[f.explicit]()
                f.match=f.ty.kind()==f.explicit
                if not f.match: s.unchecked=True
        if s.kind in('unit','repr','ext','int','adj','unt'):
            n=r.randint(1,4) if s.kind!='unit' else r.randint(1,5)
            while True:
                s.variants=[Variant(r,g,s,i) for i in r.sample(VIDENT,n)]
                ns=[v.out(s.rule) for v in s.variants]
                if len(set(ns))!=len(ns): continue
                if s.kind not in('unit','repr') and all(v.style=='unit' for v in s.variants): continue
                break
            nxt=0; given=r.random()<.6
            for i,v in enumerate(s.variants):
                # written out for all variants, in several ways, or for none
                v.disc=nxt; v.disc_text=''
                if given:
                    v.disc=nxt+(r.choice([-7,-1,0,1,16]) if i==0 else r.randint(0,9))
                    v.disc_text=' = '+r.choice([str(v.disc),'0x%x'%v.disc if v.disc>=0 else '-0x%x'%-v.disc,'%d - 1'%(v.disc+1),'(%d)'%v.disc])
                nxt=v.disc+1
        if s.kind=='int': s.tag=r.choice(['tag','@type','kind of']); s.serde.append('tag = "%s"'%s.tag)
        if s.kind=='adj': s.tag=r.choice(['tag','@t']); s.content=r.choice(['content','c-c']); x=['tag = "%s"'%s.tag,'content = "%s"'%s.content]; r.shuffle(x); s.serde+=x
        if s.kind=='unt': s.serde.append('untagged')
        if s.params and not any(uses_param(f.ty) for f in s.fields+[f for v in s.variants for f in v.fields] if f.ty):
            s.params=[]
        # how the parameters are declared; parameters of items that are skipped need not be models
        s.gen=[]; s.hidden=''
        if s.params: s.gen.append((r.choice(['T','T','T: VpAny','T = u8','T: VpAny + Sized = u8']),'T',s.params[0][1].rust()))
        elif s.kind in('struct','ext','adj','int','unt') and r.random()<.2: s.gen.append(('U','U',r.choice(['NotModel','u8'])))
        if s.gen:
            us=[]
            if r.random()<.3: s.gen.insert(0,("'a","'a","'static")); us.append("std::marker::PhantomData<&'a u8>")
            if r.random()<.3: s.gen.append(('V','V','NotModel') if '=' not in s.gen[-1][0] else ('V = NotModel','V','NotModel')); us.append(r.choice(['V','Option<V>','Vec<(V, u8)>']))
            if not s.params: us.append(r.choice(['Option<U>','std::marker::PhantomData<U>','U']))
            if us and s.kind=='struct': s.hidden=', '.join('#[serde(%s)] vp_hidden%d: %s'%(r.choice(['skip','skip_serializing']),i,u) for i,u in enumerate(us))
            elif us and s.variants: s.hidden=r.choice(['#[serde(skip)] VpHidden { %s }'%', '.join('x%d: %s'%(i,u) for i,u in enumerate(us)),'#[serde(skip_serializing)] VpHidden(%s)'%', '.join(us)] if s.kind!='int' else ['#[serde(skip)] VpHidden { %s }'%', '.join('x%d: %s'%(i,u) for i,u in enumerate(us))])
            else: s.gen=[x for x in s.gen if x[1]=='T']
        c=[f for f in s.fields+[f for v in s.variants for f in v.fields] if f.ty and f.ty.k=='prim' and not f.skip and not f.explicit and s.kind not in('unit','repr','newtype')]
        if c and not s.gen and r.random()<.1:
            s.gen.append(('W: VpAssoc','W','u8')); r.choice(c).ty=Ty('param','W::Out',Ty('prim','String'))
        # a type that mentions itself mentions its parameters
        if any(f.ty and ref_self(f.ty) for f in s.fields+[f for v in s.variants for f in v.fields]): s.gen=[(d,u,'u8' if a=='NotModel' else a) for d,u,a in s.gen]
        s.where=r.choice(['',' where T: VpAny',' where T: Sized, Vec<T>: Sized']) if s.params else ''
        if s.hidden and s.kind=='struct': s.unchecked=True
        # written by a macro: the type of a field is a group of its own
        c=[f for f in s.fields+[f for v in s.variants for f in v.fields] if f.ty]
        a=[f for f in c if f.ty.rust()=='W::Out']
        if c and r.random()<(.5 if a else .1):
            f=r.choice(a or c); f.via=True
            s.src='macro_rules! vp_%s { ($t:ty) => { %s } } vp_%s! { %s }'%(s.name,s.text(r),s.name,f.ty.rust())
        else: s.src=s.text(r)
    def generics(s,i): return '<%s>'%', '.join(x[i] for x in s.gen) if s.gen else ''
    def generics_use(s): return s.generics(1)
    def use(s): return s.name+s.generics(2)
    def text(s,r):
        t='#[derive(%s, OpgModel)] '%('Serialize_repr' if s.kind=='repr' else 'Serialize')
        sd=list(s.serde)
        if s.kind=='repr': sd=[]; t+='#[repr(i16)] '
        x=''
        while sd: n=r.randint(1,len(sd)); x+='#[serde(%s)] '%', '.join(sd[:n]); sd=sd[n:]
        o=opg_attrs(r,s.items); t+=x+o if r.random()<.5 else o+x
        g=s.generics(0)
        def more(xs): return xs+([s.hidden] if s.hidden else [])
        if s.kind=='struct': return t+'pub struct %s%s%s { %s }'%(s.name,g,s.where,', '.join(more([f.text(r) for f in s.fields])))
        if s.kind in('tuple','newtype'): return t+'pub struct %s%s%s%s;'%(s.name,g,body(r,'tuple',s.fields),s.where)
        return t+'pub enum %s%s%s { %s }'%(s.name,g,s.where,', '.join(more([v.text(r) for v in s.variants])))
    def schema(s):
        d={}
        def top(x):
            if s.description is not None: x['description']=s.description
            return x
        def topn(x):
            if s.nullable: x['nullable']=True
            return top(x)
        vs=[v for v in s.variants if not v.skip]
        if s.kind=='struct': return topn(obj(s.fields,s.rule,False))
        if s.kind=='tuple': return topn(tup(s.fields,False))
        if s.kind=='newtype':
            f=s.fields[0]; p=params(f,s)
            e=s.explicit or f.explicit
            if e: return explicit_model(e,bool(p['nullable']),p)
            return apply(f.ty.schema(),p)
        if s.kind=='unit':
            ns=[v.out(s.rule) for v in vs]; d={'type':'string','enum':ns}
            if ns: d['example']=ns[0]
            return topn(d)
        if s.kind=='repr': return top({'oneOf':[{'type':'integer','description':'%s variant'%v.out(None),'example':str(v.disc)} for v in vs]})
        if s.kind=='unt': return top({'oneOf':[v.content() for v in vs]})
        if s.kind=='ext':
            def c(v):
                if v.style!='unit': return v.content()
                x={'type':'string','enum':[v.out(s.rule)],'example':v.out(s.rule)}
                if v.description is not None: x['description']=v.description
                return x
            return topn({'type':'object','additionalProperties':top({'oneOf':[c(v) for v in vs]})})
        tagd='%s type variant'%s.name
        if s.kind=='adj':
            ns=[v.out(s.rule) for v in vs]; t={'type':'string','enum':ns,'description':tagd}
            if ns: t['example']=ns[0]
            return topn({'type':'object','properties':{s.tag:t,s.content:top({'oneOf':[v.content() for v in vs]})},'required':[s.tag,s.content]})
        if s.kind=='int':
            out=[]
            for v in vs:
                if v.style=='tuple':
                    f=v.fields[0]; m=json.loads(json.dumps(apply(f.ty.schema(),params(f,v))))
                else: m=obj(v.fields,v.rule,v.inline,v.description)
                n=v.out(s.rule)
                m.setdefault('properties',{})[s.tag]={'type':'string','enum':[n],'example':n,'description':tagd}
                m['required']=m.get('required',[])+[s.tag]
                out.append(m)
            return top({'oneOf':out})
    def values(s,r):
        if s.unchecked: return []
        if s.kind in('struct','tuple','newtype'):
            if not checkable(s.fields): return []
            m=make(r,'named' if s.kind=='struct' else 'tuple',s.fields)
            return [] if m is None else [s.name+('::'+s.generics(2)+' ' if s.gen else '')+m]
        out=[]
        for v in s.variants:
            if v.skip or not checkable(v.fields) or (s.kind=='ext' and v.style=='unit'): continue
            m=make(r,v.style,v.fields)
            if m is not None: out.append('%s%s::%s%s'%(s.name,'::'+s.generics(2) if s.gen else '',v.ident,m))
        return out
def uses_param(t): return t.k=='param' or any(isinstance(x,Ty) and uses_param(x) for x in t.a)
def ref_self(t): return t.k=='self' or any(isinstance(x,Ty) and ref_self(x) for x in t.a)

class Variant:
    def __init__(s,r,g,d,ident):
        s.ident=ident; s.d=d; s.items=[]; s.serde=[]; s.skip=False; s.inline=False; s.rule=None; s.rename=None; s.fields=[]; s.disc=None
        k=d.kind
        s.style='unit' if k in('unit','repr') else r.choice({'ext':['unit','tuple','tuple2','named'],'int':['unit','tuple','named','named'],'adj':['tuple','tuple2','named'],'unt':['tuple','tuple2','named']}[k])
        common(r,s,s.items,s.style=='tuple')
        if r.random()<.2: s.inline=True; s.items.append('inline')
        if k!='repr' and r.random()<.15:
            s.rename=r.choice(['renamed','re named','9x'])+str(g.uid())
            s.serde.append(r.choice(['rename = "%s"','rename(serialize = "%s", deserialize = "other")'])%s.rename)
        if k!='repr' and r.random()<.1: s.skip=True; s.serde.append(r.choice(['skip','skip_serializing']))
        if s.style=='named' and r.random()<.3: s.rule=r.choice(RULES); s.serde.append('rename_all = "%s"'%s.rule)
        if s.style=='tuple':
            s.fields=fields(r,g,d,1,False)
            while s.fields[0].skip: s.fields=fields(r,g,d,1,False)
            if k=='int':
                f=s.fields[0]; f.explicit=None; f.items=[i for i in f.items if i not in('string','integer','number','boolean','any')]
                f.ty=Ty('map',Ty('prim','u8'))
                c=[x for x in g.defs if x.kind=='struct' and not x.params and checkable(x.fields)]
                if c and r.random()<.7: f.ty=Ty('def',r.choice(c))
                if r.random()<.3: f.ty=Ty('box',f.ty)
        elif s.style=='tuple2': s.fields=fields(r,g,d,r.randint(2,3),False); s.style='tuple'; s.many=True
        elif s.style=='named':
            while True:
                s.fields=fields(r,g,d,r.randint(0,3),True)
                if unique(s.fields,s.rule): break
        s.many=len(s.fields)>1 and s.style=='tuple'
        for f in s.fields:
            if s.inline and f.ty and ref_self(f.ty): f.ty=Ty('vec',Ty('self',d))
    def out(s,rule): return s.rename if s.rename else variant_rule(rule,s.ident)
    def text(s,r):
        t='#[serde(%s)] '%', '.join(s.serde) if s.serde else ''
        return t+opg_attrs(r,s.items)+s.ident+body(r,s.style,s.fields)+(s.disc_text if s.d.kind=='repr' else '')
    def content(s):
        if s.style=='tuple' and not s.many:
            f=s.fields[0]; return f.ref(s.inline or f.inline,params(f,s))
        if s.style=='tuple': return tup(s.fields,s.inline,s.description)
        return obj(s.fields,s.rule,s.inline,s.description)

class Gen:
    def __init__(s): s.defs=[]; s.n=0
    def uid(s): s.n+=1; return s.n
    def ty(s,r,depth,owner):
        x=r.random()
        if owner is not None and x<.04 and not owner.inline and owner.kind!='newtype': return r.choice([Ty('vec',Ty('self',owner)),Ty('opt',Ty('box',Ty('self',owner)))]) 
        if owner is not None and owner.params and x<.3:
            n,a=owner.params[0]; p=Ty('param',n,a)
            return r.choice([p,p,Ty('vec',p),Ty('box',p)] + ([Ty('opt',p)] if a.name() is None else []))
        if depth>0 and x<.45:
            k=r.choice(['opt','opt','vec','box','map','tup','arr'])
            if k=='tup': return Ty('tup',*[s.ty(r,depth-1,None) for _ in range(r.randint(2,3))])
            return Ty(k,s.ty(r,depth-1,None))
        if s.defs and x<.75: return Ty('def',r.choice(s.defs[-12:]))
        if x<.78: return Ty('str')
        return Ty('prim',r.choice(list(PRIMS)))

PARAMS=[{},dict(description='vp description'),dict(nullable=True,format='vp-format'),dict(nullable=False,example='vp example'),
 dict(description='',variants=['vpA','vpB'],format='',example='',nullable=True)]
def rust_params(p):
    t=lambda k: 't(%s)'%json.dumps(p[k]) if k in p else 'None'
    return 'ContextParams { description: %s, nullable: %s, variants: %s, format: %s, example: %s }'%(t('description'),'Some(%s)'%str(p['nullable']).lower() if 'nullable' in p else 'None',
      'Some(vec![%s])'%', '.join(json.dumps(x)+'.to_owned()' for x in p['variants']) if 'variants' in p else 'None',t('format'),t('example'))
def generate(seed,n):
    r=random.Random(seed); g=Gen()
    while len(g.defs)<n: g.defs.append(Def(r,g))
    lines=['#![allow(dead_code, unused_imports, non_camel_case_types)]'[0:0]+'use opg::*; use serde::Serialize; use serde_repr::Serialize_repr;',
      'pub struct NotModel; impl Default for NotModel { fn default() -> Self { NotModel } }',
      'impl Serialize for NotModel { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }',
      'pub trait VpAny {} impl<T: ?Sized> VpAny for T {} pub trait VpAssoc { type Out; } impl VpAssoc for u8 { type Out = String; }',
      'pub const VP_CONST: &str = "vp const"; pub fn vp_fn(x: u32) -> u32 { x * x } pub fn vp_never<T: ?Sized>(_: &T) -> bool { false }']
    where={}
    for d in g.defs:
        lines.append(d.src); where[len(lines)]=d
    for i,d in enumerate(g.defs):
        vs=d.values(r) if not d.unchecked else []
        lines.append('fn run%d() { let mut cx = Components::default(); let m = <%s as OpgModel>::get_schema(&mut cx); let n = <%s as OpgModel>::type_name().map(|x| x.into_owned()); let vs: Vec<Result<serde_json::Value, String>> = vec![%s]; out(%d, m, n, cx, vs); more::<%s>(%d); }'%(
          i,d.use(),d.use(),', '.join('serde_json::to_value(&%s).map_err(|e| e.to_string())'%v for v in vs),i,d.use(),i))
        where[len(lines)]=d; d.vals=vs
    lines.append('fn out(i: usize, m: Model, n: Option<String>, cx: Components, vs: Vec<Result<serde_json::Value, String>>) { println!("{}", serde_json::json!({"i": i, "schema": serde_json::to_value(&m).unwrap(), "name": n, "components": serde_json::to_value(&cx.schemas).unwrap(), "values": vs.into_iter().map(|v| match v { Ok(v) => serde_json::json!({"ok": v}), Err(e) => serde_json::json!({"err": e}) }).collect::<Vec<_>>()})); }')
    lines.append('fn more<T: OpgModel>(i: usize) { let t = |x: &str| Some(x.to_owned()); for k in 0..%d { let p = match k { %s }; let j = |x: serde_json::Result<serde_json::Value>| x.unwrap();'%(len(PARAMS),', '.join('%s => %s'%('_' if k==len(PARAMS)-1 else k,rust_params(p)) for k,p in enumerate(PARAMS)))
      +' let (mut a, mut b, mut c, mut d) = (Components::default(), Components::default(), Components::default(), Components::default());'
      +' let with = T::get_schema_with_params(&mut a, &p); let sel = T::select_reference(&mut b, false, &p); let inl = T::select_reference(&mut c, true, &p); let men = d.mention_schema::<T>(false, &p);'
      +' println!("{}", serde_json::json!({"i": i, "k": k, "with": j(serde_json::to_value(&with)), "sel": j(serde_json::to_value(&sel)), "inl": j(serde_json::to_value(&inl)), "men": j(serde_json::to_value(&men)),'
      +' "regs": [j(serde_json::to_value(&a.schemas)), j(serde_json::to_value(&b.schemas)), j(serde_json::to_value(&c.schemas)), j(serde_json::to_value(&d.schemas))]})); } }')
    lines.append('fn main() { %s }'%' '.join('run%d();'%i for i in range(len(g.defs))))
    return g.defs,'\n'.join(lines)+'\n',where

def norm(x):
    if isinstance(x,dict): return {k:(sorted(v) if k=='required' and isinstance(v,list) else norm(v)) for k,v in x.items()}
    if isinstance(x,list): return [norm(v) for v in x]
    return x
def valid(v,s,comps,path='value',seen=()):
    """None, or why the value is not described by the schema. A reference met again at the same value adds no way to match it."""
    if '$ref' in s:
        n=s['$ref'].rsplit('/',1)[1]
        if n not in comps: return '%s: %s is not registered'%(path,n)
        if n in seen: return '%s: %s again'%(path,n)
        return valid(v,comps[n],comps,path,seen+(n,))
    if s=={}: return None
    if 'oneOf' in s:
        es=[valid(v,x,comps,path,seen) for x in s['oneOf']]
        return None if any(e is None for e in es) else '%s: %s matches no alternative (%s)'%(path,json.dumps(v),'; '.join(es))
    if v is None and s.get('nullable'): return None
    t=s.get('type')
    ok={'string':isinstance(v,str),'integer':isinstance(v,int) and not isinstance(v,bool),'number':isinstance(v,(int,float)) and not isinstance(v,bool),
        'boolean':isinstance(v,bool),'array':isinstance(v,list),'object':isinstance(v,dict)}.get(t)
    if not ok: return '%s: %s is no %s'%(path,json.dumps(v),t)
    if t=='string' and 'enum' in s and v not in s['enum']: return '%s: %s is not in %s'%(path,v,s['enum'])
    if t=='array':
        for i,x in enumerate(v):
            e=valid(x,s['items'],comps,'%s[%d]'%(path,i))
            if e: return e
    if t=='object':
        for q in s.get('required',[]):
            if q not in v: return '%s: required %s is not written'%(path,q)
        for k,x in v.items():
            sub=s.get('properties',{}).get(k,s.get('additionalProperties'))
            if sub is None: return '%s: %s is written but not described'%(path,k)
            e=valid(x,sub,comps,'%s.%s'%(path,k))
            if e: return e
    return None
def context(defs,d):
    """the definition and those it mentions"""
    import re
    need=[d]; out=[]
    while need:
        x=need.pop()
        if x in out: continue
        out.append(x)
        need+=[y for y in defs if y is not x and re.search(r'\b%s\b'%y.name,x.src)]
    return '\n'.join(x.src for x in out)
def links(x):
    if isinstance(x,dict):
        if list(x)==['$ref']: yield x['$ref'].rsplit('/',1)[1]
        for k,v in x.items():
            if k not in('enum','required'): yield from links(v)
    elif isinstance(x,list):
        for v in x: yield from links(v)
def applied(s,p):
    r=apply(s,p)
    if s.get('type')=='string' and p.get('variants') is not None: r['enum']=p['variants']
    return r
def results(o):
    yield 'get_schema',o['schema'],o['components'],{}
    for m in o['more']:
        for k,f in enumerate(['with','sel','inl','men']):
            yield {'with':'get_schema_with_params','sel':'select_reference(inline: false)','inl':'select_reference(inline: true)','men':'mention_schema'}[f],m[f],m['regs'][k],PARAMS[m['k']]
def judge_links(d,o):
    for what,r,reg,p in results(o):
        ls=set(links(r))
        if what.startswith('select_reference(inline: false)') and list(r)==['$ref']: ls=set()
        for k,m in reg.items(): ls|=set(links(m))
        bad=sorted(ls-set(reg))
        if bad: return '%s with %r gives\n%s\nand registers %s, but links to %s'%(what,p,json.dumps(r),sorted(reg),bad)
def judge_reached(d,o):
    for what,r,reg,p in results(o):
        need=list(links(r)); seen=set()
        while need:
            n=need.pop()
            if n in seen: continue
            seen.add(n); need+=links(reg.get(n,{}))
        bad=sorted(set(reg)-seen)
        if bad: return '%s with %r gives\n%s\nand registers %s, which no link reaches'%(what,p,json.dumps(r),bad)
def judge_params(d,o):
    for what,r,reg,p in results(o):
        link={'$ref':'#/components/schemas/%s'%o['name']}
        want=link if o['name'] is not None and what in('select_reference(inline: false)','mention_schema') else applied(o['schema'],p)
        if norm(r)!=norm(want): return '%s with %r gives\n%s\nexpected\n%s'%(what,p,json.dumps(r,sort_keys=True),json.dumps(want,sort_keys=True))
JUDGES=dict(C01=judge_links,C02=judge_reached,C04=judge_params)
def judge(d,o):
    """None, or what is wrong"""
    want=d.schema()
    if norm(o['schema'])!=norm(want): return 'schema:\n%s\nexpected:\n%s'%(json.dumps(o['schema'],indent=1,ensure_ascii=False,sort_keys=True),json.dumps(want,indent=1,ensure_ascii=False,sort_keys=True))
    wn=None if d.inline else d.name
    if o['name']!=wn: return 'type name %r, expected %r'%(o['name'],wn)
    for src,v in zip(d.vals,o['values']):
        if 'err' in v: continue
        comps=dict(o['components']); comps.setdefault(d.name,o['schema'])
        e=valid(v['ok'],o['schema'],comps)
        if e: return 'serde writes %s for %s\nwhich the schema does not describe: %s'%(json.dumps(v['ok']),src,e)
    return None
if __name__=='__main__':
    import sys
    ds,src,_=generate(int(sys.argv[1]),int(sys.argv[2])); open(sys.argv[3],'w').write(src)
