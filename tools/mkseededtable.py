"""Rewrites the table of planted changes at the end of DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json,glob,os,re
EXTRA={'S53':['C06'],'S107':['C02'],'S114':['C21'],'S112':['C20'],'S103':['C11'],'S121':['C21'],'S125':['C17'],'S128':['C11'],'S117':['C18'],'S120':['C01'],'S176':['C20','C19']}
rows=[]
for m in sorted(glob.glob('seeded/*/meta.json'),key=lambda p:int(re.search(r'S(\d+)',p).group(1))):
    sid=m.split('/')[1]; d=json.load(open(m))
    by=[d['property']]+[x for x in EXTRA.get(sid,[]) if x!=d['property']]
    note=' (sanitizer build only)' if sid=='S26' else ''
    c=lambda s:s.replace('|','\\|').replace('\n',' ')
    rows.append(f"| {sid} | {', '.join(by)}{note} | {c(d['what_it_breaks'])} | {c(d['needs'])} |")
A='<!-- seeded table -->';B='<!-- end of seeded table -->'
t=open('DESIGN.md').read()
new=A+'\n\n| change | caught by | breaks | needs |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n\n'+B
if A in t: t=t[:t.index(A)]+new+t[t.index(B)+len(B):]
else: t=t.rstrip('\n')+'\n\n## Planted changes, and the checks that catch them\n\nThe changes are in seeded/ (no check reads them). "Caught by" names the quick checks seen to report the change; others may as well.\n\n'+new+'\n'
open('DESIGN.md','w').write(t)
