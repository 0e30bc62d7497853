"""Rewrites the generated lists in DESIGN.md: repaired defects (from known-findings.txt) and planted bugs (from seeded/)."""
import json, os, re
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(home, "DESIGN.md"), encoding="utf-8").read()


def put(text, name, lines):
    begin, end = "<!-- %s -->" % name, "<!-- /%s -->" % name
    a, b = text.index(begin) + len(begin), text.index(end)
    return text[:a] + "\n" + "\n".join(lines) + "\n" + text[b:]


fixes = []
for line in open(os.path.join(home, "known-findings.txt"), encoding="utf-8"):
    m = re.match(r"(fixed|known): property=(\S+) (.*)", line)
    if m:
        fixes.append("* %s%s %s" % ("UNREPAIRED " if m.group(1) == "known" else "", m.group(2), m.group(3)))
text = put(text, "fixes", fixes)
rows = ["| planted bug | needs | property |", "|---|---|---|"]
for name in sorted(os.listdir(os.path.join(home, "seeded"))):
    meta = json.load(open(os.path.join(home, "seeded", name, "meta.json"), encoding="utf-8"))
    rows.append("| %s | %s | %s |" % (name, meta["needs"].replace("|", "/"), meta["property"]))
text = put(text, "planted", rows)
text = re.sub(r"`seeded/<id>` \(\d+", "`seeded/<id>` (%d" % (len(rows) - 2), text)
open(os.path.join(home, "DESIGN.md"), "w", encoding="utf-8").write(text)
