import json,glob,os
s=open('/verif/DESIGN.md').read()
late={'h03-release-cache':'files of up to 30 x 30 cells added','f02-times-fallback':'','h04-last-lookup':'plans now repeat a lookup after an insertion','s08-window-buffer':'windows longer than 7 steps and longer series are generated','f03-text-rename':'rename faults added','h05-assign-keeps-tree':'originals that differ in longitude only ("vary") added'}
rows=["Caught by the check of the property named; \"at first missed\" says what was strengthened.","","| planted bug | caught by | manifests when | at first missed |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    rows.append(f"| {n} | {m['property']} | {m['needs'].strip().rstrip('.')} | {late.get(n,'')} |")
t="\n".join(rows)
b="<!-- catch table -->"; e="<!-- /catch table -->"
if "CATCH-TABLE" in s: s=s.replace(" CATCH-TABLE","\n"+b+"\n"+e)
i=s.index(b); j=s.index(e)
s=s[:i]+b+"\n\n"+t+"\n\n"+s[j:]
open('/verif/DESIGN.md','w').write(s)
