import sys,os,subprocess,json,importlib.util,time
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
M=os.environ['M']; repo=M+'/repo'; ver=M+'/verif'
only=sys.argv[2:]
env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick',CARGO_NET_OFFLINE='true',RUSTFLAGS='-W pub_use_of_private_extern_crate',CARGO_INCREMENTAL='1')
for id,prop,f,old,new in b.BUGS:
    if only and id not in only: continue
    subprocess.run(['git','-C',repo,'checkout','-q','--','.'])
    p=repo+'/'+f; s=open(p).read()
    if s.count(old)<1: print(id,'NOMATCH',s.count(old),flush=True); continue
    s=s.replace(old,new,1); open(p,'w').write(s)
    r=subprocess.run(['cargo','test','--offline','-q','--lib','--target-dir',M+'/tt'],cwd=repo,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,stdin=subprocess.DEVNULL)
    if r.returncode!=0: print(id,'TESTS',[l for l in r.stdout.splitlines() if 'error' in l or 'FAILED' in l][:3],flush=True); continue
    t=time.time()
    try:
        r=subprocess.run(['bash','./run.sh',prop],cwd=ver,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900,stdin=subprocess.DEVNULL)
        v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        fam=[l.strip()[:150] for l in r.stdout.splitlines() if 'violat' in l.lower() or 'family' in l]
        print(id,prop,'rc',r.returncode,'%.0fs'%(time.time()-t),'' if r.returncode==1 else 'MISSED',fam[:1],flush=True)
    except subprocess.TimeoutExpired: print(id,prop,'TIMEOUT',flush=True)
subprocess.run(['git','-C',repo,'checkout','-q','--','.'])
