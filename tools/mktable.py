import json,os,re
rows=['Each lives in `seeded/<id>/` (patch, demonstration, what it needs); all pass the existing tests.  Those of','`planted-templates/` change templates, which the planted-bug format does not count; the checks were run on them the same way.','','| bug | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
for top in ('seeded','planted-templates'):
    for d in sorted(os.listdir(top)):
        m=json.load(open(f'{top}/{d}/meta.json'))
        by=m['property']+' (quick)'
        rows.append('| %s%s | %s | %s | %s | %s |'%(d,' (template)' if top!='seeded' else '',m['property'],m['what_it_breaks'],m['needs'],by))
s=open('DESIGN.md').read()
if 'PLANTED_TABLE' in s: s=s.replace('PLANTED_TABLE','<!-- table -->\n'+'\n'.join(rows)+'\n<!-- end -->')
else:
    i=s.index('<!-- table -->'); j=s.index('<!-- end -->'); s=s[:i]+'<!-- table -->\n'+'\n'.join(rows)+'\n'+s[j:]
open('DESIGN.md','w').write(s)
