"""Fills the tables of DESIGN.md (between markers) from known-findings.json and seeded/*/meta.json; run by hand."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
fx = json.load(open(os.path.join(ROOT, "known-findings.json")))["fixed"]
rows = []
for f in fx:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    rows.append("| %s | %s | %s |" % m.groups())
fixes = "## Genuine defects found and repaired in /repo\n%d `fix:` commits; each was found by the check of its property on the unrepaired tree (or while writing its specification) and the check reports it again if it returns.\n\n| property | commit | what failed |\n|---|---|---|\n%s" % (len(rows), "\n".join(rows))
caught = {}
c = os.path.join(ROOT, "lib", "seedresults.json")
if os.path.exists(c):
    caught = json.load(open(c))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "?")))
seeds = "\n".join(rows)
def fill(s, tag, text):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    block = a + "\n" + text + "\n" + b
    if "@@%s@@" % tag in s:
        return s.replace("@@%s@@" % tag, block)
    return re.sub(re.escape(a) + r".*?" + re.escape(b), lambda m: block, s, flags=re.S)
s = fill(s, "FIXES", fixes)
s = fill(s, "SEEDS", seeds)
open(p, "w").write(s)
