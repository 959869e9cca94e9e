import re,subprocess,os,sys,json,time
M=os.environ.get('M','/tmp/mut'); R=M+'/repo'; V=M+'/verif'
files=sys.argv[1].split(','); lo=int(sys.argv[2]); hi=int(sys.argv[3]); checks=sys.argv[4].split(','); out=sys.argv[5]
only=sys.argv[6] if len(sys.argv)>6 else None
OPS=[(r'==','!='),(r'!=','=='),(r'(?<![-=<])>=','>'),(r'(?<![=<])<=','<'),(r'(?<= )< (?=\S)','<= '),(r'(?<= )> (?=\S)','>= '),(r'&&','||'),(r'\|\|(?! \{)(?=.*\S)','&&'),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\+ 1\b','+ 0'),(r'\+ 1\b','+ 2'),(r'- 1\b','- 0'),(r'\+= 1\b','+= 2'),(r'-= 1\b','-= 2'),(r'\.\.=','..'),
 (r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),(r'is_empty\(\)','is_empty() == false'),(r'push_front','push_back'),(r'push_back','push_front'),(r'pop_front','pop_back'),(r'pop_back','pop_front'),(r'\.rev\(\)',''),
 (r'\bbreak;','continue;'),(r'\bcontinue;','break;'),(r'!(?=[a-z_$(])',''),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','1'),(r'\b4\b','3'),(r'\b16\b','15'),
 (r'\.clone\(\)',''),(r'\bOk\(_\)','Err(_)'),(r'\+=','-='),(r' \+ ',' - '),(r'<< ','>> '),(r'first\(\)','last()'),(r'last\(\)','first()'),(r'\.front\(\)','.back()'),(r'starts_with','ends_with'),(r'ends_with','starts_with'),(r'trim_end_matches','trim_start_matches'),(r'\.any\(','.all('),(r'\.all\(','.any('),(r'take_while','skip_while'),(r'skip_while','take_while'),(r'\.insert\((\w+), (\w+)\)',r'.entry(\1).or_insert(\2)'),
 (r"'([^'\\])'",lambda m:"'"+chr(ord(m.group(1))+1)+"'" if m.group(1)!='&' else "'%'"),
 (r'0x([0-9A-Fa-f]+)',lambda m:hex(int(m.group(1),16)+1)),(r'0x([0-9A-Fa-f]+)',lambda m:hex(int(m.group(1),16)-1)),
]
def mutants(f):
    L=open(f'{R}/{f}').read().split('\n')
    for i,l in enumerate(L):
        if not(lo<=i+1<=hi): continue
        st=l.strip()
        if not st or st.startswith('//') or st.startswith('#[') or st.startswith('use ') : continue
        # ignore strings
        spans=[m.span() for m in re.finditer(r'"(?:[^"\\]|\\.)*"',l)]
        ins=lambda p:any(a<=p<b for a,b in spans)
        seen=set()
        for a,b in OPS:
            for m in re.finditer(a,l):
                if ins(m.start()): continue
                if l[max(0,m.start()-1):m.start()]=='$' : continue
                new=l[:m.start()]+(b(m) if callable(b) else m.expand(b))+l[m.end():]
                if new!=l and new not in seen:
                    seen.add(new); yield f,i,new
        if st.endswith(';') and not st.startswith('let ') and not st.startswith('type') and st not in ('};',');','});') and st.count('(')==st.count(')') and st.count('{')==st.count('}'):
            yield f,i,l[:len(l)-len(l.lstrip())]+'();'
            if not st.startswith('return'): yield f,i,''
        if re.match(r".*=> .*,$",st) and not st.startswith('_') and st.count('(')==st.count(')') and st.count('{')==st.count('}'):
            yield f,i,''
        m=re.match(r'^(\s*)((?:\} else )?if )(.*)( \{)$',l)
        if m and not m.group(3).startswith('let '):
            yield f,i,m.group(1)+m.group(2)+'false && ('+m.group(3)+')'+m.group(4)
            yield f,i,m.group(1)+m.group(2)+'true || ('+m.group(3)+')'+m.group(4)
env=dict(os.environ,RUSTFLAGS="-W pub_use_of_private_extern_crate",CARGO_INCREMENTAL='1')
def sh(c,t,cwd): 
    try: return subprocess.run(c,cwd=cwd,env=env,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return None
done=set()
if os.path.exists(out):
    for l in open(out): 
        j=json.loads(l); done.add((j['f'],j['i'],j['new']))
ms=[m for f in files for m in mutants(f)]
if only: ms=[m for k,m in enumerate(ms) if k%int(only.split('/')[1])==int(only.split('/')[0])]
print(len(ms),'mutants',len(done),'done',flush=True)
if os.environ.get('COUNT'): sys.exit()
O=open(out,'a')
for f,i,new in ms:
    if (f,i,new) in done: continue
    p=f'{R}/{f}'; s=open(p).read(); L=s.split('\n'); old=L[i]; L[i]=new
    open(p,'w').write('\n'.join(L))
    res={'f':f,'i':i,'old':old,'new':new}
    try:
        # package to test
        r=sh(['cargo','test','--offline','-q','--lib','--target-dir',M+'/tt'],120,R)
        ok=True
        if f!='src/lib.rs':
            d='json_derive' if f=='json_derive/src/lib.rs' else os.path.dirname(os.path.dirname(f))
            r2=sh(['cargo','build','--offline','-q','--target-dir',M+'/tt'],120,f'{R}/{d}')
            ok = r2 is not None and r2.returncode==0
        if r is None: res['st']='test-timeout'
        elif r.returncode!=0 or not ok: res['st']='nobuild' if 'error' in r.stderr and 'could not compile' in r.stderr or not ok else 'tests'
        else:
            res['st']='SURVIVED'
            for c in checks:
                r=sh(['./run.sh',c],900,V)
                if r is None: res['st']='timeout '+c; break
                if r.returncode==1: res['st']='killed '+c; break
                if r.returncode!=0: res['st']='broken '+c; res['o']=r.stdout[-300:]; break
    finally:
        open(p,'w').write(s)
    O.write(json.dumps(res)+'\n'); O.flush()
    if res['st'].startswith(('SURV','timeout','broken')): print(json.dumps(res),flush=True)
