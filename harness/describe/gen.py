"""Random describe_type! descriptions with the schema each should give (C13). The schema is compared in the form the
standard library's Debug gives it, so that nothing of the crate's own writer takes part."""
import random, json
def q(t): return json.dumps(t,ensure_ascii=False)
WORDS=['','a','text','with "quotes"','two words','Ünïcode','null','date-time','0']
IDENTS=['a','id','name','first','second','r#type','user_id','X9','_x','link','items','string','raw_model','required','properties']
def opt(r,key,parts,p=.4):
    if r.random()<p:
        t=r.choice(WORDS); parts.append('%s: %s'%(key,q(t))); return 'Some(%s)'%q(t)
    return 'None'
def single(desc,d): return 'Model { description: %s, data: Single(ModelType { nullable: false, type_description: %s }) }'%(desc,d)
def simple(f,e): return 'ModelSimple { format: %s, example: %s }'%(f,e)
class Desc:
    def __init__(s,r):
        s.lets=[]; s.n=0
        s.src,s.want=s.model(r,r.randint(0,4))
    def model(s,r,depth):
        k=r.choice(['string','string','number','integer','boolean','raw_model','raw_type']+(['array','array','object','object','object'] if depth else []))
        parts=[]
        if k=='raw_model':
            s.n+=1; m='m%d'%s.n; t=r.choice(WORDS)
            s.lets.append('let %s = Model { description: Some(%s.to_owned()), data: ModelData::AnyOf(ModelAnyOf { any_of: vec![] }) };'%(m,q(t)))
            return 'raw_model => %s'%m,'Model { description: Some(%s), data: AnyOf(ModelAnyOf { any_of: [] }) }'%q(t)
        desc=opt(r,'description',parts)
        if k=='raw_type':
            s.n+=1; m='d%d'%s.n; t=r.choice(WORDS)
            s.lets.append('let %s = ModelData::OneOf(ModelOneOf { one_of: vec![ModelReference::Link(%s.to_owned())] });'%(m,q(t)))
            return 'raw_type => { %s ident: %s }'%(' '.join(parts),m),'Model { description: %s, data: OneOf(ModelOneOf { one_of: [Link(%s)] }) }'%(desc,q(t))
        if k in('string','number','integer'):
            f=opt(r,'format',parts); e=opt(r,'example',parts); d=simple(f,e); v='None'
            if k=='string' and r.random()<.5:
                vs=[r.choice(WORDS) for _ in range(r.randint(0,3))]; parts.append('variants: [%s]'%', '.join(map(q,vs))); v='Some([%s])'%', '.join(map(q,vs))
            d='String(ModelString { variants: %s, data: %s })'%(v,d) if k=='string' else '%s(%s)'%(k.capitalize(),d)
        elif k=='boolean': d='Boolean'
        elif k=='array':
            a,b=s.value(r,depth-1); parts.append('items: (%s)'%a); d='Array(ModelArray { items: %s })'%b
        else:
            names=r.sample(IDENTS,r.randint(0,4)); ps=[]; props={}; req=[]
            for n in names:
                a,b=s.value(r,depth-1); rq=r.random()<.5
                ps.append('%s%s: (%s)'%(n,'[required]' if rq else '',a)); props[n]=b
                if rq: req.append(n)
            parts.append('properties: { %s }'%' '.join(ps))
            d='Object(ModelObject { properties: {%s}, additional_properties: None, required: [%s] })'%(', '.join('%s: %s'%(q(n),props[n]) for n in sorted(props,key=lambda x:x.encode())),', '.join(map(q,req)))
        return '%s => { %s }'%(k,' '.join(parts)),single(desc,d)
    def value(s,r,depth):
        if r.random()<.25:
            t=r.choice(WORDS[1:])
            if r.random()<.5: return 'link => %s'%q(t),'Link(%s)'%q(t)
            s.n+=1; s.lets.append('let l%d = %s;'%(s.n,q(t))); return 'link => l%d'%s.n,'Link(%s)'%q(t)
        a,b=s.model(r,depth); return a,'Inline(%s)'%b
def generate(seed,n):
    r=random.Random(seed); defs=[Desc(r) for _ in range(n)]; lines=['use opg::*;']; where={}
    for i,d in enumerate(defs):
        lines.append('fn run%d() { %s let m = describe_type!(%s); println!("{}", serde_json::json!({"i": %d, "model": format!("{:?}", m)})); }'%(i,' '.join(d.lets),d.src,i)); where[len(lines)]=d
    lines.append('fn main() { %s }'%' '.join('run%d();'%i for i in range(n)))
    return defs,'\n'.join(lines)+'\n',where
def judge(d,o):
    if o['model']!=d.want: return 'gives\n%s\nexpected\n%s'%(o['model'],d.want)
def context(defs,d): return ' '.join(d.lets)+'\ndescribe_type!('+d.src+')'
