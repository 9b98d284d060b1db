#!/usr/bin/env python3
# Writes DESIGN.md from docs/design_head.md, harness/index.json, known_findings.jsonl, seeded/ and docs/design_tail.md.
import json, os, glob
here = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
o = open(here + "/docs/design_head.md").read().rstrip() + "\n\n"
o += "## 4. Harnesses and bounds\n\n| property | harness | bounds | outside |\n|---|---|---|---|\n"
c = lambda s: s.replace("|", "\\|")
idx = json.load(open(here + "/harness/index.json"))
for h in sorted(idx, key=lambda h: h["property"]):
    o += "| %s | %s | %s | %s |\n" % (h["property"], h["name"], c(h["bounds"]), c(h.get("outside", "")))
o += "\n## 5. Defects found in the repository, and fixed\n\nEach was found by a counterexample (or, for a few, while writing the oracle), reproduced on the real code, and repaired in a `fix:` commit; all repository tests pass with them. There are no open findings.\n\n"
for l in open(here + "/known_findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed:"):
        _, p, rest = l.split(" ", 2)
        k, w = rest.split(" ", 1)
        o += "- %s `%s`: %s\n" % (p.split("=")[1], k, w)
    elif l:
        o += "- OPEN: %s\n" % l
notes = json.load(open(here + "/docs/seed_notes.json"))
o += "\n## 6. Planted changes\n\n" + notes[""] + "\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    o += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), c(notes.get(i, m["property"])))
o += "\n" + open(here + "/docs/design_tail.md").read()
open(here + "/DESIGN.md", "w").write(o)
