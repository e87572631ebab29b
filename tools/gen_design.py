import json, os, re, sys
ROOT=sys.argv[1] if len(sys.argv)>1 else '/tmp/dev/verif'
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
sec=json.load(open(ROOT+'/tools/design_sections.json'))
def bounds(pid):
    t=open(f'{ROOT}/harness/checks/{pid.lower()}.go').read()
    m=re.search(r'Bounds:\s*(?:fmt\.Sprintf\()?"((?:[^"\\]|\\.)*)"',t)
    b=m.group(1) if m else ''
    return b.replace('%d','N')
head=open(ROOT+'/tools/design_head.md').read()
out=[head,'\n## Properties\n']
for p in props:
    s=sec[p['id']]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Decided on*: {s['on']}  \n*Oracle*: {s['oracle']}  \n*Bounds*: {bounds(p['id'])}.  \n*Cost*: {s['cost']}  \n*Beyond the tests*: {s['why']}\n")
    if s.get('not'): out.append(f"*Left out*: {s['not']}\n")
out.append(open(ROOT+'/tools/design_tail.md').read())
catches=json.load(open(ROOT+'/tools/catches.json')) if os.path.exists(ROOT+'/tools/catches.json') else {}
out.append('\n## Planted changes and what catches them\n\nEvery folder of `seeded/` was validated: it applies, builds, passes the repository\'s tests, and its demo passes on the\nunchanged tree and fails with the patch. "caught" is the outcome of the quick check of its property (`tools/catch.sh`).\n\n| change | property | breaks | quick check |\n|---|---|---|---|')
for d in sorted(os.listdir(ROOT+'/seeded')):
    m=json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|','/')} | {catches.get(d,'?')} |")
fixes=[l for l in open(ROOT+'/known_findings.txt') if l.startswith('fixed:')]
open(ROOT+'/DESIGN.md','w').write('\n'.join(out)+'\n')
