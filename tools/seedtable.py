"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["what_it_breaks"]))
t = "| bug | caught by | what it breaks |\n|---|---|---|\n" + "".join("| %s | %s quick | %s |\n" % (d, p, w.replace("|", "\\|")) for p, d, w in sorted(rows))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)(<!-- seeded -->\n).*?(<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s)
open(p, "w").write(s)
