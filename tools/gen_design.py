"""Writes DESIGN.md from tools/design.md, the planted bugs and the findings."""
import glob,json,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rows=["| bug | property | needs | breaks | caught by |","|---|---|---|---|---|"]
caught=json.load(open(d+"/tools/caught.json"))
for m in sorted(glob.glob(d+"/seeded/*/meta.json")):
    j=json.load(open(m)); n=m.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |"%(n,j["property"],j["needs"].replace("|","/"),j["what_it_breaks"].replace("|","/"),caught.get(n,"(not run)")))
fix=sum(l.startswith("fixed:") for l in open(d+"/known_findings.txt"))
s=open(d+"/tools/design.md").read().replace("@FIX@",str(fix)).replace("@SEEDS@","\n".join(rows))
open(d+"/DESIGN.md","w").write(s)
