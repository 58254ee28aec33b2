"""spec/loops.json: the structure of the annotated loops on the current tree (run after changing loop annotations);
spec/params.json: the names of the parameters the contracts use"""
import sys,os,json,re
sys.path.insert(0,'/verif/vp')
import assemble,check,props
out={}; par={}; work='/tmp/vp_loops'; os.makedirs(work,exist_ok=True); done=set()
for P in props.PROPS.values():
    for pr in P['proofs']:
        if pr['name'] in done: continue
        done.add(pr['name']); fs=[]; e=work+'/exp.rs'
        for x in pr['files']:
            if x=='$DERIVE': fs+=check.stage_files(work,('opg.rs','bound.rs'))
            elif x=='$STAGE': fs+=check.stage_files(work)
            elif x=='$BOUND': fs+=check.stage_files(work,())
            elif x=='$PCX': fs+=check.pcx_file(work)
            elif x=='$ALT': pass
            elif x in('$ARMS','$TYPES'): a=work+'/'+x[1:].lower()+'.rs'; check.expand_arms(a,x[1:].lower()); fs.append(a)
            else: check.expand(e); fs.append(x.replace('$EXP',e))
        sp=assemble.Spec()
        for f in pr['specs']: sp.load(os.path.join(check.V,'spec',f))
        ex,err=check.extract(check.vpx_bin(),sp,fs,work+'/x.json',pr.get('str_args',False),pr.get('collect',False))
        assert ex,err
        for f in ex['fns']:
            if sp.known(f['key']) and assemble.param_names(f): par[f['key']]=assemble.param_names(f)
            if f['loops'] and sp.known(f['key']) and not any('external' in ds for r,ds in sp.fns if re.fullmatch(r,f['key'])):
                s=assemble.loop_signs(f)
                if s not in out.setdefault(f['key'],[]): out[f['key']].append(s)
json.dump(out,open(os.path.join(check.V,'spec','loops.json'),'w'),indent=0,sort_keys=True)
json.dump(par,open(os.path.join(check.V,'spec','params.json'),'w'),indent=0,sort_keys=True)
print(len(par),'functions with parameters');
print(len(out),'functions')
