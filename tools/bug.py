#!/usr/bin/env python3
"""bug.py ID: stdin is a bug description in sections:
@@meta property | needs | what   (three lines)
@@edit path            then <<<< old ==== new >>>> blocks
@@main                 main.rs of the demo
Makes the edits in /tmp/w and writes seeded/ID."""
import sys,json,re,subprocess,os
id=sys.argv[1]; t=sys.stdin.read()
parts=re.split(r'^@@(\w+)[ ]*(.*)\n',t,flags=re.M)
d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
subprocess.run(['git','-C','/tmp/w','checkout','-q','--','.'],check=True)
for k,a,b in zip(parts[1::3],parts[2::3],parts[3::3]):
    if k=='meta':
        l=[x for x in b.strip().split('\n')]
        json.dump({'property':l[0].strip(),'needs':l[1].strip(),'what_it_breaks':l[2].strip()},open(d+'/meta.json','w'),indent=1)
    elif k=='edit':
        p='/tmp/w/workspace/boostvoronoi_core/src/'+a.strip()
        s=open(p).read()
        for m in re.finditer(r'<<<<\n(.*?)====\n(.*?)>>>>\n?',b,flags=re.S):
            o,n=m.group(1),m.group(2)
            c=s.count(o)
            if c!=1: print(f'{id}: {c} matches for:\n{o}'); sys.exit(1)
            s=s.replace(o,n)
        open(p,'w').write(s)
    elif k=='main':
        open(d+'/main.rs','w').write(b.replace('//PRELUDE\n',open('/tmp/b/prelude.rs').read()))
subprocess.run(['/verif/tools/mkbug.sh',id],check=True)
