"""What decides each property: contracts (spec files on extracted functions) and the concrete driver."""
import os, re, json, time

def core(ctx):
    """random inputs on the real crate (harness/core)"""
    prop=ctx['prop']; d=ctx['Driver']('core')
    if not d.build(): return dict(cases=0,notes=['harness/core does not build against this tree: '+d.err[-800:]])
    fail,st=ctx['run_core'](d,prop,ctx['seed'],CASES[prop][ctx['tier']]*ctx['scale'],ctx['secs'],ctx['dict'])
    if fail and fail.get('crash') and prop in('C02','C04','C06'):
        # a crash on recursive types is C01's business; everything else is still checked
        st2n=['recursive types crash the generator (C01); continued on acyclic types']
        fail,st=ctx['run_core'](d,prop,ctx['seed'],CASES[prop][ctx['tier']]*ctx['scale'],ctx['secs'],ctx['dict'],['--acyclic'])
        st['notes']=st2n
    r=dict(st)
    if fail:
        if fail.get('crash'):
            k=find_crash(ctx,d,prop,int(fail['at']))
            fail['case']=k
        r['fail']='command: %s --case %s\n%s'%(re.sub(r' --cases \d+ --secs \d+','',st['cmd']),fail['case'],fail['text'])
    if prop=='C06':
        rc,o,e=d.run(['C06known'],60)
        r['known']=[l[6:] for l in o.splitlines() if l.startswith('KNOWN ')]
    return r

def arrays(ctx):
    """arrays of every length without the feature const_generics (harness/arrays): each is described like a list"""
    d=ctx['Driver']('arrays')
    if not d.build():
        r=dict(cases=0,notes=['harness/arrays does not build against this tree: '+d.err[-400:]])
        m=re.search(r'`\[[^`]*; \d+\]: (?:opg::)?OpgModel` is not satisfied|`OpgModel` is not implemented for `\[[^`]*; \d+\]`',d.err)
        if m and ctx['prop']=='C06': r['fail']='without the feature const_generics an array is no model:\n'+d.err[-2500:]
        return r
    rc,o,e=d.run([],60)
    fs=[l[5:] for l in o.splitlines() if l.startswith('FAIL '+ctx['prop'])]
    m=re.search(r'^DONE (\d+)',o,re.M); n=int(m.group(1)) if m else 0
    r=dict(cases=n,distinct=n,samples=[],cmd='vp_arrays (opg without default features)')
    if fs: r['fail']='opg without its default features\n'+'\n'.join(x[:1500] for x in fs[:3])
    elif not m: r['notes']=['harness/arrays ended with %s: %s'%(rc,e[-300:])]
    return r

def internals(ctx):
    """random identifiers and definitions on the modules of the derive macro (harness/internals)"""
    prop=ctx['prop']; d=ctx['Driver']('internals')
    if not d.build(): return dict(cases=0,notes=['harness/internals does not build against this tree: '+d.err[-800:]])
    fail,st=ctx['run_core'](d,prop,ctx['seed'],CASES[prop][ctx['tier']]*ctx['scale'],ctx['secs'],ctx['dict'])
    r=dict(st)
    if fail: r['fail']='command: %s --case %s\n%s'%(re.sub(r' --cases \d+ --secs \d+','',st['cmd']),fail['case'],fail['text'])
    return r

def load_gen(ctx,crate):
    import importlib.util
    sp=importlib.util.spec_from_file_location('vp_gen_'+crate,os.path.join(ctx['V'],'harness',crate,'gen.py'))
    m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m

def corpus(ctx,crate):
    """batches of generated programs: compiled with the real macros, run, every result compared with what its source declares"""
    gen=load_gen(ctx,crate); batches,n=BATCHES[ctx['prop']][ctx['tier']]; batches*=ctx['scale'] if ctx['scale']<3 else 3
    r=dict(cases=0,distinct=0,samples=[],notes=[],cmd='harness/%s/gen.py, seeds %d.., %d definitions each'%(crate,ctx['seed']*1000,n))
    t0=time.time(); dirn=os.path.join(ctx['T'],'gen_'+crate); os.makedirs(dirn,exist_ok=True); seen=set()
    for b in range(batches):
        if b and time.time()-t0>ctx['secs']: break
        seed=ctx['seed']*1000+b
        defs,src,where=gen.generate(seed,n)
        open(os.path.join(dirn,'gen.rs'),'w').write(src)
        env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTFLAGS=os.environ.get('RUSTFLAGS','')+' -Awarnings',VP_GEN_DIR=dirn,CARGO_TARGET_DIR=os.path.join(ctx['T'],crate))
        rc,o,e=ctx['sh'](['cargo','build','--offline','-q'],cwd=os.path.join(ctx['V'],'harness',crate),env=env,timeout=400)
        head='definitions: harness/%s/gen.py seed %d'%(crate,seed)
        if rc!=0:
            ls=[int(x) for x in re.findall(r'--> \S*gen\.rs:(\d+):',e)]
            hit=[l for l in ls if l in where]
            # the first definition that is the place of an error, not one that merely uses it
            if hit and ctx['prop'] in('C10','C12','C13') and not re.search(r'could not compile `opg',e):
                l=min(hit)
                r['fail']='%s\nthis does not compile although it is well-formed:\n%s\n%s'%(head,src.splitlines()[l-1],e[:3000])
            else: r['notes'].append('harness/%s does not build against this tree: %s'%(crate,e[-800:]))
            return r
        rc,o,e=ctx['sh']([os.path.join(ctx['T'],crate,'debug','vp_'+crate)],timeout=120)
        got={}
        for l in o.splitlines():
            j=json.loads(l)
            if 'k' in j: got[j['i']]['more'].append(j)
            else: j['more']=[]; got[j['i']]=j
        for i,d in enumerate(defs):
            r['cases']+=1
            if d.src not in seen: seen.add(d.src); r['distinct']+=1
            if i not in got and ctx['prop'] in('C02','C04'): r['notes'].append('the program ended early (C01, C10)'); return r
            if i not in got:
                r['fail']='%s\nthe program ended (%s) while describing\n%s\n%s'%(head,rc,d.src,e[-1500:]); return r
            w=getattr(gen,'JUDGES',{}).get(ctx['prop'],gen.judge)(d,got[i])
            if w:
                r['fail']='%s\n%s\n%s'%(head,gen.context(defs,d) if hasattr(gen,'context') else d.src,w); return r
        if b==0: r['samples']=[d.src[:300] for d in defs[:4]]
    return r
def reported(ctx):
    """the same definitions given to the compiler: every defect is an error of the macro at its place, and nothing else is"""
    d=ctx['Driver']('internals'); n=dict(quick=400,thorough=4000)[ctx['tier']]
    if not d.build(): return dict(cases=0,notes=['harness/internals does not build against this tree: '+d.err[-800:]])
    rc,o,e=d.run(['C11','--seed',str(ctx['seed']+77),'--cases',str(n),'--emit'],120)
    defs=[x.rsplit('\n',1) for x in re.findall(r'^DEF\n(.*?)\nEND$',o,re.S|re.M)]
    lines=[]; at={}; rng={}
    for i,(t,w) in enumerate(defs):
        lines.append('mod m%d { #[derive(opg::OpgModel)]'%i); a=len(lines)+1
        for l in t.split('\n'): lines.append(l)
        b=len(lines); lines.append('}'); rng[i]=(a,b)
        for k in range(a-1,b+1): at[k]=i
    lines.append('fn main() {}')
    dirn=os.path.join(ctx['T'],'gen_reject'); os.makedirs(dirn,exist_ok=True); open(os.path.join(dirn,'gen.rs'),'w').write('\n'.join(lines)+'\n')
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTFLAGS=os.environ.get('RUSTFLAGS','')+' -Awarnings',VP_GEN_DIR=dirn,CARGO_TARGET_DIR=os.path.join(ctx['T'],'derive'))
    rc,o,e=ctx['sh'](['cargo','check','--offline','-q','--message-format=json'],cwd=os.path.join(ctx['V'],'harness/derive'),env=env,timeout=400)
    r=dict(cases=0,distinct=0,samples=[],notes=[],cmd='vp_internals C11 --emit, %d definitions compiled'%len(defs))
    errs={}; seen=0
    for l in o.splitlines():
        try: j=json.loads(l)
        except ValueError: continue
        m=j.get('message')
        if not isinstance(m,dict) or 'harness/derive' not in j.get('manifest_path','') or m.get('level')!='error' : continue
        seen+=1
        # what the compiler itself says of the definition (unknown types, serde's attributes) is not the macro's
        if m.get('code') or m['message'].startswith('cannot find') : continue
        for sp in m['spans']:
            if not sp['is_primary']: continue
            while sp.get('expansion') and not sp['file_name'].endswith('gen.rs'): sp=sp['expansion']['span']
            if sp['file_name'].endswith('gen.rs'): errs.setdefault(at.get(sp['line_start']),[]).append((m['message'],sp))
    if not seen: r['notes'].append('harness/derive gives no diagnostics against this tree: '+e[-500:]); return r
    for i,(t,w) in enumerate(defs):
        r['cases']+=1
        if w=='no defect':
            if errs.get(i): r['fail']='this definition has no defect:\n%s\nthe compiler reports: %s'%(t,errs[i][0][0]); return r
            continue
        r['distinct']+=1
        if not errs.get(i): r['fail']='%s: compiles without an error:\n#[derive(OpgModel)] %s'%(w,t); return r
        if '/*<*/' in t and not w.startswith('not a list'):
            a,b=[(rng[i][0]+t[:t.index(k)].count('\n'),len(t[:t.index(k)].rsplit('\n',1)[-1])+1) for k in('/*<*/','/*>*/')]
            if not any(a<=(sp['line_start'],sp['column_start']) and (sp['line_end'],sp['column_end'])<=(b[0],b[1]+5) for _,sp in errs[i]):
                r['fail']='%s: the error is not at the place of the defect (between the marks):\n%s\nreported: %s'%(w,t,[(m,sp['line_start']-rng[i][0]+1,sp['column_start']) for m,sp in errs[i]]); return r
    return r
def derived(ctx): return corpus(ctx,'derive')
def api(ctx): return corpus(ctx,'api')
def types(ctx): return corpus(ctx,'describe')

def find_crash(ctx,d,prop,start):
    for k in range(start,start+64):
        f,_=ctx['run_core'](d,prop,ctx['seed'],0,20,ctx['dict'],['--case',str(k)])
        if f: return k
    return None

CASES=dict(C01=dict(quick=30000,thorough=600000),C02=dict(quick=30000,thorough=600000),C03=dict(quick=60000,thorough=2000000),
  C04=dict(quick=60000,thorough=2000000),C05=dict(quick=60000,thorough=2000000),C06=dict(quick=20000,thorough=500000),
  C07=dict(quick=200000,thorough=5000000),C11=dict(quick=100000,thorough=2000000),
  C08=dict(quick=60000,thorough=1500000),C09=dict(quick=6000,thorough=100000))

BATCHES=dict(C01=dict(quick=(2,120),thorough=(40,200)),C02=dict(quick=(2,120),thorough=(40,200)),C04=dict(quick=(2,120),thorough=(40,200)),C10=dict(quick=(5,160),thorough=(80,200)),C13=dict(quick=(2,300),thorough=(40,300)),C12=dict(quick=(5,40),thorough=(80,60)))
EXP=['$EXP',os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'spec/user_type.rs')]
CORE=dict(name='core',specs=['core.spec'],preludes=['prelude_noser.rs'],files=EXP+['$ALT'])
def std(rule,trusted=(),proofs=(CORE,),drivers=(core,)):
    return dict(level='proof',proofs=list(proofs),drivers=[dict(fn=d,secs=dict(quick=40,thorough=400)) for d in drivers],rule=rule,trusted=list(trusted),assumptions=ASSUME)
ASSUME=['machine arithmetic: the verified functions do none, apart from counters in extracted loops that Verus bounds',
 'Option<T>, slices, references and Box behave as Verus models them; std collections behave as their assumed contracts say',
 'user-written OpgModel implementations satisfy the trait contract that the built-in and derived ones are proved to satisfy',
 'Clone returns an equal value']
SER=dict(name='ser',specs=['ser.spec'],preludes=['prelude_ser.rs'],files=EXP)
def ser(rule):
    return dict(level='proof',proofs=[SER],drivers=[dict(fn=core,secs=dict(quick=40,thorough=400))],rule=rule,trusted=['spec/prelude_ser.rs: what serde promises of data formats and of std types'],assumptions=[
     'a data format writes what the Serializer calls say: structs and maps as objects (in call order), sequences as arrays, newtypes as their content, unit variants as their names, absent options as null, integer keys as decimal text',
     'FlatMapSerializer adds the members of the flattened value; serialize_tagged_newtype adds the tag to the members of the value',
     'the decimal texts of different u16 keys differ']+ASSUME)
DERIVE=dict(name='derive',specs=['derive.spec','attrs.spec','respan.spec'],elsewhere=['respan.spec'],preludes=['prelude_text.rs','prelude_derive.rs','prelude_cx.rs'],files=['$DERIVE'])
STAGE=dict(name='stage',specs=['core.spec','derive.spec','attrs.spec','respan.spec','generics.spec','stage.spec'],elsewhere=['core.spec','derive.spec','attrs.spec','respan.spec','generics.spec'],preludes=['prelude_noser.rs','prelude_text.rs','prelude_derive.rs','prelude_cx.rs'],files=['$EXP','$STAGE'],str_args=True)
BOUND=dict(name='bound',specs=['derive.spec','attrs.spec','respan.spec','generics.spec','bound.spec'],elsewhere=['derive.spec','attrs.spec'],preludes=['prelude_text.rs','prelude_derive.rs','prelude_cx.rs'],files=['$BOUND'],collect=True)
PCX=dict(name='pcx',specs=['pcx.spec'],preludes=['prelude_text.rs','prelude_derive.rs','prelude_pcx.rs'],files=['$PCX'])
def derive(rule,assume=(),proofs=(DERIVE,),drivers=(internals,)):
    return dict(level='proof',proofs=list(proofs),drivers=[dict(fn=d,secs=dict(quick=40,thorough=400)) for d in drivers],rule=rule,trusted=[],assumptions=list(assume)+ASSUME)
API=dict(name='api',specs=['core.spec','api.spec'],elsewhere=['core.spec'],preludes=['prelude_api.rs','prelude_text.rs'],files=['$EXP','$ARMS'])
TYPES=dict(name='types',specs=['core.spec','types.spec'],elsewhere=['core.spec'],preludes=['prelude_noser.rs'],files=['$EXP','$TYPES'])
TEMPL=['generated code evaluates like the collapsed quote! template (struct literals, method calls, blocks; tools/vpx/src/stage.rs); a template of another shape is an unknown value',
 "what mention_schema and get_schema* of a field's type return in generated code is the trait contract of OpgModel (vp_cx_mention_schema, ty_schema)",
 'the definition is in the supported subset (spec: derivable, supported); syn::visit visits every path of a type once, macros aside; syn parses definitions and attributes as documented']
PROPS={
 'C13':dict(level='proof',proofs=[CORE,TYPES],drivers=[dict(fn=types,secs=dict(quick=40,thorough=400))],rule='random describe_type! descriptions of every kind, nested up to four levels, compiled with the real macro; the schema is compared with one computed from the description; all count as non-trivial',trusted=[],assumptions=[
   'each form is verified with arbitrary texts and values (literals become uninterpreted texts); that a longer list of properties is treated like a shorter one is how macro_rules works and is not itself proved']+ASSUME),
 'C12':dict(level='proof',proofs=[CORE,API],drivers=[dict(fn=api,secs=dict(quick=60,thorough=600))],rule='random describe_api! descriptions (every section, nested callbacks, every kind of parameter, body, response and security requirement), compiled with the real macro; the document is compared with one computed from the description; all count as non-trivial',trusted=[],assumptions=[
   'each arm is verified on an arbitrary state with arbitrary values and a following item; that a whole description is the arms applied one after another is how macro_rules works and is not itself proved','an arm treats every type alike (the functions in tools/arms use one type parameter each; literals and status codes become uninterpreted values)','stringify! of a type is its path as written']+ASSUME),
 'C10':dict(level='proof',proofs=[CORE,DERIVE,STAGE,BOUND],drivers=[dict(fn=derived,secs=dict(quick=60,thorough=600))],rule='random type definitions (structs, tuples, newtypes, five enum representations, generics, recursion) with random serde and opg attributes, compiled with the real macros; the schema is compared with one computed from the definition, values written by serde are validated against it; all count as non-trivial',trusted=[],assumptions=TEMPL+ASSUME),
 'C07':derive('every identifier up to five characters over seven characters x every rule, random longer ones (Unicode included), whole definitions with rename and rename_all on every level; all count as non-trivial',
   ['Unicode upper case is what char::is_uppercase says (uninterpreted, shared by specification and code)','definitions whose names make serde itself panic are excluded (nameable)','syn parses attributes as documented']),
 'C11':derive('random definitions (structs, tuples, newtypes, five enum representations) with random valid attributes, half of them with exactly one defect at a random place, reported there; some of them compiled; all count as non-trivial',
   ['the methods of ParsingContext are proved one by one (recording appends, check fails iff something was recorded); that a RefCell changes only through them, so that what was recorded is still there at check, is assumed','syn parses attributes as documented'],(DERIVE,STAGE,BOUND,PCX),(internals,reported)),
 'C08':ser('random schemas of every kind nested up to six levels, with every member set or not; written as JSON and as YAML and compared with an independent writer; all count as non-trivial'),
 'C09':ser('random documents with all optional parts set or not, nested callbacks, every method; compared with an independent writer, JSON and YAML; all count as non-trivial'),
 'C01':std('random type graphs (named, unnamed, recursive, wrapped) and histories of mentions; non-trivial: more than one schema registered; and generated definitions, derived: every link of every result resolves',proofs=(CORE,STAGE),drivers=(core,derived,arrays)),
 'C02':std('random histories of mentions, manual additions and security schemes; non-trivial: more than one schema registered; and generated definitions, derived: nothing registered that links do not reach',drivers=(core,derived,arrays)),
 'C03':std('random registries, a third with exactly one dangling link at depth 2-7; non-trivial: at least one link'),
 'C04':std('random schemas x random parameters, and every built-in type x parameters; non-trivial: some parameter is set; and generated definitions, derived, x parameters',proofs=(CORE,STAGE),drivers=(core,derived,arrays)),
 'C05':std('random sequences of add_property, merge and try_merge; non-trivial: at least one operation'),
 'C06':std('every built-in type and every pair of wrappers over named and unnamed types, plus random histories; non-trivial: all pairs, histories with more than one schema',drivers=(core,arrays)),
}
def known_finding_lines(prop): return []
