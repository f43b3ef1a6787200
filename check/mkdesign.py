"""fills DESIGN.md's table of planted bugs from seeded/*/meta.json (run by hand)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    w = re.sub(r"\s+", " ", d["what_it_breaks"]).replace("|", "/")
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], w))
t = "<!-- seeds -->\n%d of them:\n\n| id | caught by | what it breaks |\n|---|---|---|\n%s\n<!-- /seeds -->" % (len(rows), "\n".join(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
