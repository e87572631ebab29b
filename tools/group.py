import json,re,sys,collections
v=json.load(open(sys.argv[1])); g=collections.defaultdict(list)
for x in v:
    m=re.findall(r'/repo/(\S+:\d+)',x['Detail'] if 'Detail' in x else x['detail'])
    g[m[0] if m else (x.get('detail') or '')[:150]].append(x['key'])
for k,l in sorted(g.items()): print(len(l),k,l[:4])
