"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
text = open("DESIGN.md").read()
head = "\n## Planted bugs\n"
text = text[:text.index(head)] + head
rows = []
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append((os.path.basename(d), m["property"][:3], m["what_it_breaks"].replace("|", "/")))
text += """
%d bugs, each in `seeded/<id>/` with its demonstration. `tools/plant.py try` confirmed each (builds, stable tests pass, the demonstration fails with it and passes without) and ran the check of its property against it; all are caught at seed 1, quick tier. When a check missed one it was strengthened (see "What the planted bugs taught").

| bug | caught by | what it breaks |
|---|---|---|
""" % len(rows)
text += "".join("| %s | %s | %s |\n" % r for r in rows)
open("DESIGN.md", "w").write(text)
