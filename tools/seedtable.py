"""Fills the table of planted bugs of DESIGN.md from the descriptions in seeded/."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
out = ["<!-- seeds -->", "", "| caught by | change | what it breaks | needs |", "|---|---|---|---|"]
out += ["| %s | `%s` | %s | %s |" % tuple(x.replace("|", "/").replace("\n", " ") for x in r) for r in sorted(rows)]
out += ["", "<!-- endseeds -->"]
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
i, j = s.index("<!-- seeds -->"), s.index("<!-- endseeds -->") + len("<!-- endseeds -->")
open(p, "w").write(s[:i] + "\n".join(out) + s[j:])
