import json,os,re,collections
d=collections.defaultdict(list)
for s in sorted(os.listdir('/verif/seeded')):
    p=json.load(open('/verif/seeded/%s/meta.json'%s))['property']; d[p].append(s.split('-',1)[1])
p='/verif/DESIGN.md'; t=open(p).read()
a=t.index('| property | planted bugs |'); b=t.index('\n\n',a)
t=t[:a]+'| property | planted bugs |\n|---|---|\n'+'\n'.join('| %s | %s |'%(k,', '.join(v)) for k,v in sorted(d.items()))+t[b:]
open(p,'w').write(t)
