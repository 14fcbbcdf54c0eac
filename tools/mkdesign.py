import json,re,sys
sys.path.insert(0,'/verif/tools')
L={}
NA={}
exec(open('/verif/tools/levels.py').read(),{'L':L,'NA':NA})
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
head=open('/verif/tools/design/head.md').read()
tail=open('/verif/tools/design/tail.md').read()
out=[head]
for pid in sorted(props):
    d=props[pid]
    src=open(f'/verif/contracts/{pid.lower()}.py').read()
    cases=re.findall(r'^def ((?:prove|bounded|check)_\w+)\(E.*?\):\n    """(.*?)"""',src,re.M|re.S)
    names=re.findall(r'^def ((?:prove|bounded|check)_\w+)\(E',src,re.M)
    docs=dict(cases)
    out.append(f"\n### {pid} {d['title']} ({L[pid][0]})\n\n{L[pid][1]}\n")
    for kind,what in (('prove_','proved for all inputs'),('bounded_','discharged for symbolic data of bounded shape, and run natively'),('check_','native runs only')):
        ns=[n for n in names if n.startswith(kind)]
        if ns: out.append(f"- *{what}*: "+'; '.join(f"`{n}`"+(' – '+' '.join(docs[n].split()) if n in docs else '') for n in ns)+'\n')
    m=re.search(r"'assumptions': \[(.*?)\]\s*[,}]",src,re.S)
    if m:
        a=re.findall(r'"([^"]*)"',m.group(1))
        out.append("- *assumed*: "+'; '.join(a)+'\n')
out.append(tail)
open('/verif/DESIGN.md','w').write(''.join(out))
