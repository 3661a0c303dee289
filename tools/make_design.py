"""Writes DESIGN.md from tools/design/*.md, the families and the planted bugs."""
import re,glob,ast,json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
head=open('tools/design/head.md').read()
txt=open('tools/design/prose.md').read()
prose={m.group(1):m.group(2).strip() for m in re.finditer(r'^@(C\d\d)\n(.*?)(?=^@C|\Z)',txt,re.M|re.S)}
props={json.loads(l)['id']:json.loads(l) for l in open('properties.jsonl')}
out=[head.rstrip(),'','## The monitors, property by property','',
 'For every property: the monitor families (cases in the quick / thorough tier), then what decides.','']
for f in sorted(glob.glob('rv/props/c*.py')):
    src=open(f).read(); t=ast.parse(src)
    docs={n.name:' '.join((ast.get_docstring(n) or '').split()) for n in t.body if isinstance(n,ast.FunctionDef)}
    pid=f[-6:-3].upper()
    out+=[f"### {pid} {props[pid]['title']}",'']
    for m in re.finditer(r"Family\(\s*'([^']+)',\s*(\w+),\s*([\d_]+),\s*([\d_]+)",src):
        out.append(f"* `{m.group(1)}` ({int(m.group(3))} / {int(m.group(4))}): {docs.get(m.group(2),'')}")
    out+=['',prose[pid],'']
out.append(open('tools/design/tail.md').read().rstrip()); out.append('')
out+=['### Planted bugs (`seeded/`)','','Each is caught by the check of its own property, in the quick tier with seed 1.','','| seed | property | what breaks |','|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json')); out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
open('DESIGN.md','w').write('\n'.join(out)+'\n')
