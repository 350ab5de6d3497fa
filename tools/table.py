"""Development helper: section 7 of DESIGN.md (the planted bugs) from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
MISSED = {"c03-cwd": "nothing: the simulated working directories hold no folder of the name the change looks for"}
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["needs"], MISSED.get(d.name, m["property"])))
text = "## 7. Planted bugs and the checks that catch them\n\n" \
       f"{len(rows)} changes, each passing the stable tests, with a demonstration; tried with the quick command of the property's own check " \
       "(others often report them too).\n\n| bug | what it needs | caught by |\n|---|---|---|\n"
text += "".join(f"| {i} | {n.replace('|', '/')} | {c} |\n" for p, i, n, c in sorted(rows))
f = V / "DESIGN.md"
s = f.read_text()
s = re.split(r"\n## 7\. ", s)[0].rstrip() + "\n\n" + text
f.write_text(s)
