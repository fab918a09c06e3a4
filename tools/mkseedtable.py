"""Rewrites the table of planted bugs in DESIGN.md (results: 'ID rc=N ...' lines)."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for ln in open(f):
        m = re.match(r"(\S+) rc=(\d+)", ln)
        if m:
            res[m.group(1)] = m.group(2)
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    how = {"1": m["property"], None: "(not run)"}.get(res.get(i), "**missed**")
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, c(m["what_it_breaks"]), c(m["needs"]), how))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
b, e = "<!-- seeds -->\n", "<!-- /seeds -->\n"
s = s[:s.index(b) + len(b)] + "\n".join(rows) + "\n" + s[s.index(e):]
open(p, "w").write(s)
print(sum(r.endswith("missed** |") or r.endswith("(not run) |") for r in rows), "not caught of", len(rows) - 2)
