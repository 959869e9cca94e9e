import os,subprocess,json,shutil,sys,tempfile
OUT='/verif/seeded'
CORE_SH='''#!/bin/bash
# a program against the json crate in the current directory
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
export RUSTFLAGS="-W pub_use_of_private_extern_crate" CARGO_NET_OFFLINE=true
mkdir -p "$D/src"; cp "$H/main.rs" "$D/src/main.rs"
cat >"$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
json = { path = "$R" }
T
cargo run -q --offline --manifest-path "$D/Cargo.toml" --target-dir "$D/target"
'''
PM_SH='''#!/bin/bash
# a procedural macro built on json_quote and json_parse from the current directory
R="$PWD"; H="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
export RUSTFLAGS="-W pub_use_of_private_extern_crate" CARGO_NET_OFFLINE=true
mkdir -p "$D/src" "$D/pm/src"; cp "$H/main.rs" "$D/src/main.rs"; cp "$H/pm.rs" "$D/pm/src/lib.rs"
cat >"$D/pm/Cargo.toml" <<T
[package]
name = "pm"
version = "0.0.0"
edition = "2018"
[lib]
proc-macro = true
[dependencies]
json_quote = { path = "$R/json_derive/quote" }
json_parse = { path = "$R/json_derive/parse" }
T
cat >"$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
pm = { path = "pm" }
T
cargo run -q --offline --manifest-path "$D/Cargo.toml" --target-dir "$D/target"
'''
def main_rs(body, pre=''):
    return pre+"fn main() {\n"+body.strip('\n')+"\n}\n"
def seed(id, prop, file, edits, needs, breaks, main, pm=None, pre=''):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d=f'{OUT}/{id}'; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seedw'); 
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
        r=w+'/r'
        if isinstance(edits,tuple): edits=[(file,)+edits]
        else: edits=[(e if len(e)==3 or len(e)==4 else (file,)+e) for e in edits] if edits and len(edits[0])>2 else [(file,)+e for e in edits]
        for e in edits:
            f,old,new=e[:3]; nth=e[3] if len(e)>3 else None
            p=f'{r}/{f}'; s=open(p).read()
            c=s.count(old)
            if nth is None:
                assert c==1,(id,f,c,old)
                s=s.replace(old,new)
            else:
                assert c>nth,(id,c)
                parts=s.split(old); s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
            open(p,'w').write(s)
        diff=subprocess.check_output(['git','-C',r,'diff']).decode()
        # original lines only
        for l in subprocess.check_output(['git','-C',r,'diff','-U0']).decode().splitlines():
            pass
        open(d+'/patch.diff','w').write(diff)
        open(d+'/main.rs','w').write(main_rs(main,pre))
        if pm: open(d+'/pm.rs','w').write(pm)
        open(d+'/demo.sh','w').write(PM_SH if pm else CORE_SH); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        # checks
        res={}
        res['demo0']=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
        env=dict(os.environ,RUSTFLAGS="-W pub_use_of_private_extern_crate")
        t=subprocess.run(['bash','/opt/vp/test.sh',w+'/o.json'],cwd='/repo',capture_output=True) if False else None
        res['demo1']=subprocess.run(['bash',d+'/demo.sh'],cwd=r,capture_output=True,text=True)
        res['test']=subprocess.run(['cargo','test','--offline','-q','--lib','--target-dir','/tmp/seed/target'],cwd=r,env=env,capture_output=True,text=True)
        ok = res['demo0'].returncode==0 and res['demo1'].returncode!=0 and res['test'].returncode==0
        print(id,prop,'OK' if ok else 'BAD',{k:v.returncode for k,v in res.items()},flush=True)
        if not ok:
            for k,v in res.items(): print('---',k,v.stdout[-1500:],v.stderr[-1500:])
    finally:
        shutil.rmtree(w)
L='src/lib.rs'; Q='json_derive/quote/src/lib.rs'; D='json_derive/src/lib.rs'; P='json_derive/parse/src/'
exec(open('/tmp/seed/list.py').read())
