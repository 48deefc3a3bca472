"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = "## Planted bugs"
text = open(root + "/DESIGN.md").read().split(head)[0].rstrip()
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
open(root + "/DESIGN.md", "w").write(text + "\n\n" + head + "\n\nEach is caught by the quick check of its own property (%d bugs; `needs` in its `meta.json` says what it takes).\n"
  "c11-mutate-local and c21-attributes-order were missed at first: checks now run in a local time zone other than UTC, and the harness of C21\nincludes the attribute headers last.\n\n| bug | caught by | what it breaks |\n|---|---|---|\n" % len(rows) + "\n".join(rows) + "\n")
