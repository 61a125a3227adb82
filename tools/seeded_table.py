"""writes the planted-bug table between the markers of DESIGN.md"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
notes = json.load(open(os.path.join(R, "tools", "caught.json")))
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {notes.get(d, m['property'] + ' quick')} |")
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
