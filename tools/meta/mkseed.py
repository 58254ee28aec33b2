"""mkseed.py FILE.py ... : each file defines ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, MAIN (demo main.rs) or DEMO files, DEPS.
Confirms in a scratch copy: applies, builds, tests pass, demo passes before and fails after; then writes /verif/seeded/ID."""
import sys,os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src" && cp "$H/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
opg = { path = "/repo/opg", features = ["uuid", "chrono"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
%s[workspace]
TOML
cd "$D" && CARGO_TARGET_DIR="$D/target" RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    out='/verif/seeded/'+g['ID']
    if sh('git -C /repo status --porcelain').stdout.strip(): print('repo dirty'); sys.exit(1)
    tmp=tempfile.mkdtemp()
    open(tmp+'/main.rs','w').write(g['MAIN'])
    open(tmp+'/demo.sh','w').write(DEMO%g.get('DEPS',''))
    if g.get('DEMO'): open(tmp+'/demo.sh','w').write(g['DEMO'])
    for n,t in g.get('FILES',{}).items(): open(tmp+'/'+n,'w').write(t)
    r0=sh('bash %s/demo.sh'%tmp,cwd='/repo')
    if r0.returncode!=0: print(g['ID'],'demo fails on the unchanged tree\n',r0.stdout[-1500:]); continue
    try:
        ok=True
        for p,a,b in g['EDITS']:
            s=open('/repo/'+p).read()
            if s.count(a)!=1: print(g['ID'],'edit matches',s.count(a),'times:',a[:60]); ok=False; break
            open('/repo/'+p,'w').write(s.replace(a,b))
        if not ok: continue
        patch=sh('git -C /repo diff').stdout
        b=sh('bash /opt/vp/build.sh')
        if b.returncode!=0: print(g['ID'],'does not build\n',b.stdout[-1500:]); continue
        t=sh('bash /opt/vp/test.sh /tmp/s/t.json'); d=json.load(open('/tmp/s/t.json'))
        base=json.load(open('/opt/vp/BASELINE.json'))
        if d.get('failed'): print(g['ID'],'tests fail',d['failed'][:5]); continue
        r1=sh('bash %s/demo.sh'%tmp,cwd='/repo')
        if r1.returncode==0: print(g['ID'],'demo passes with the change'); continue
    finally:
        sh('git -C /repo checkout -- .'); 
    shutil.rmtree(out,ignore_errors=True); shutil.copytree(tmp,out); shutil.rmtree(tmp)
    open(out+'/patch.diff','w').write(patch)
    json.dump(dict(property=g['PROP'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(out+'/meta.json','w'),indent=1)
    print(g['ID'],'ok:',r1.stdout.strip()[-200:])
