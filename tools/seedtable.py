"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and seeded/caught.txt (id: check ...)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
caught = {}
p = os.path.join(here, "..", "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        if ":" in l:
            k, v = l.split(":", 1)
            caught[k.strip()] = v.strip()
for d in sorted(os.listdir(here)):
    m = os.path.join(here, d, "meta.json")
    if os.path.exists(m):
        j = json.load(open(m))
        print("| %s | %s | %s | %s |" % (d, j["property"], j["needs"].replace("|", "\\|").replace("\n", " "), caught.get(d, "?")))
