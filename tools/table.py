import re,json,glob,os
fam={}
for l in open('/tmp/mut/seeds.out'):
    p=l.rstrip('\n').split('|')
    if len(p)>=4: fam[p[0]]=p[3].split(':')[0]
extra={'s20-derive-shared-key':'encode','s21-derive-missing-none':'decode','s22-derive-ignore-first':'encode','s23-derive-where':'declarations','s24-nested-angle':'declarations','s27-quote-shr-eq':'one token','s28-quote-bang-bracket':'two tokens','s34-lit-suffix':'literals','s36-derive-oldest':'decode','s52-endfor-lenient':'misuse','s41-macro-arg-scope':'macros','s42-arg-arrow':'macros','s43-indirect-macro':'again','s44-include-plain':'contents','s45-generic-attr':'edits','s46-where-forall':'edits','s47-type-pointer':'edits','s48-derive-silent':'derives','s49-index-report':'path-strings','s50-key-trim':'operations','s51-element-report':'conversions'}
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows.append('| %s | %s | %s |'%(i,m['property'],fam.get(i) or extra.get(i,'?')))
t='| change | check | family that reports it |\n|---|---|---|\n'+'\n'.join(rows)
s=open('/verif/DESIGN.md').read()
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',t)
else: s=re.sub(r'\| change \| check \| family that reports it \|\n(\|.*\n)*',t+'\n',s)
open('/verif/DESIGN.md','w').write(s)
print(t)
