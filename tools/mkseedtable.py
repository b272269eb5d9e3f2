# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % d))
    rows.append((m["property"], d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
rows.sort()
text = "| Check | Planted bug | What it breaks | What it needs |\n|---|---|---|---|\n"
text += "".join("| %s | %s | %s | %s |\n" % (p, d, b, n) for p, d, n, b in rows)
design = open(here + "/DESIGN.md").read()
design = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + text + m.group(2), design, flags=re.S)
open(here + "/DESIGN.md", "w").write(design)
