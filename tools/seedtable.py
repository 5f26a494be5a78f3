"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
p = R + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeded table"), s.index("<!-- end -->")
a = s.index("\n", a) + 1
open(p, "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])
