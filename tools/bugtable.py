"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | caught |", "|----|----|----|"]
missed = set(open(V + "/tools/missed.txt").read().split())
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    rows.append("| %s | %s | %s |" % (n, m["needs"].replace("|", "/"), "no" if n in missed else m["property"]))
p = V + "/DESIGN.md"
t = open(p).read()
body = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->\n"
if "@@TABLE@@" in t:
    t = t.replace("@@TABLE@@\n", body)
else:
    t = re.sub(r"<!-- bugs -->.*<!-- /bugs -->\n", lambda _: body, t, flags=re.S)
open(p, "w").write(t)
