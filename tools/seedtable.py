"""Prints the DESIGN.md table of planted bugs (from the meta.json files)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| property (and check that catches it) | seed | what it breaks | needs |\n|---|---|---|---|")
rows = []
for p in glob.glob(os.path.join(here, "seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append((m["property"], p.split("/")[-2], m["what_it_breaks"], m["needs"]))
for r in sorted(rows):
    print("| " + " | ".join(x.replace("|", "/") for x in r) + " |")
