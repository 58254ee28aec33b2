"""Runs Verus on a generated file and attributes every diagnostic to a function and a clause."""
import json, os, re, subprocess, time

def run_verus(path, gen, rlimit=None, threads=4, extra=(), timeout=600):
    cmd=['verus', os.path.basename(path), '--multiple-errors','20','--output-json','--time-expanded','--num-threads',str(threads)]
    if rlimit: cmd+=['--rlimit',str(rlimit)]
    cmd+=list(extra)+['--','--error-format=json']
    t=time.time()
    try:
        p=subprocess.run(cmd,cwd=os.path.dirname(path),stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
        out,err=p.stdout,p.stderr; to=False
    except subprocess.TimeoutExpired as e:
        out,err='',(e.stderr or b'').decode(errors='replace') if isinstance(e.stderr,bytes) else (e.stderr or ''); to=True
    wall=time.time()-t
    try: d=json.loads(out)
    except Exception: d={}
    vr=d.get('verification-results',{})
    diags=[]
    for l in err.splitlines():
        if not l.startswith('{'): continue
        try: m=json.loads(l)
        except Exception: continue
        if m.get('level')!='error' or m['message'].startswith('aborting due to'): continue
        diags.append(attribute(m,gen))
    smt=d.get('times-ms',{}).get('smt',{}).get('smt-run',0)
    per={}
    for mod in d.get('times-ms',{}).get('smt',{}).get('smt-run-module-times',[]):
        for f in mod.get('function-breakdown',[]): per[f['function']]=f
    return dict(cmd=' '.join(cmd),ok=bool(vr.get('success')),verified=vr.get('verified',0),errors=vr.get('errors',0),
                vir_error=vr.get('encountered-vir-error',True) if vr else True,diags=diags,wall=wall,smt_ms=smt,per=per,
                timeout=to,ran=bool(vr),stderr=err)

KIND=[('postcondition','postcondition'),('precondition','precondition'),('invariant','invariant'),('assertion','assert'),
      ('Resource limit','rlimit'),('rlimit','rlimit'),('decreases','termination'),('overflow','arith'),('recommendation','rec'),
      ('unreachable','assert'),('possible division','arith'),('index','precondition')]

def fn_at(gen,line):
    for a,b,key,*_ in gen.fnlines:
        if a<=line<=b: return key
    return None

def attribute(m,gen):
    msg=m['message']; kind=None
    for w,k in KIND:
        if w.lower() in msg.lower(): kind=k; break
    if m.get('code'): kind=None     # a rustc error
    fn=None; clause=None
    for s in m['spans']:
        for ln in (s['line_start'],):
            f=fn_at(gen,ln)
            me=gen.meta.get(ln,{})
            lab=(s.get('label') or '')
            if 'failed this postcondition' in lab or 'failed precondition' in lab:
                clause=dict(me) if me else {'line':ln}
                if 'failed precondition' in lab and not me: clause={'text':(s['text'][0]['text'].strip() if s['text'] else '')}
                continue
            if f and fn is None: fn=f
    if fn is None:
        for s in m['spans']:
            f=fn_at(gen,s['line_start'])
            if f: fn=f
    lines=sorted({s['line_start'] for s in m['spans']})
    if kind=='invariant':
        for s in m['spans']:
            t=re.search(r'//@\w+ \d+ ([\w,~]+)\s*$',gen.lines[s['line_start']-1]) if 0<s['line_start']<=len(gen.lines) else None
            if t: clause={'tag':t.group(1),'kind':'invariant','expr':gen.lines[s['line_start']-1].split('//@')[0].strip()}
    return dict(msg=msg,kind=kind or 'front-end',fn=fn,clause=clause,lines=lines,rendered=m.get('rendered','')[:3000])
