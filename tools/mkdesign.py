"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), " ".join(d["needs"].split())))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
head = text[:text.index("| property | bug | needs |")]
open(path, "w").write(head + "| property | bug | needs |\n|---|---|---|\n"
                      + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)))
print(len(rows))
