import json, glob, os, sys
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a result file "ID PROP rc=N ..."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split(None, 3)
        if len(w) > 2 and w[2].startswith("rc="): res[w[0]] = (w[1], w[2][3:], (w[3] if len(w) > 3 else "").split("violated: ")[-1].split(": assertion")[0].strip()[:110])
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f)); r = res.get(i)
    rows.append("| %s | %s | %s (%s) | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], "?" if not r else "%s: %s" % (r[0], r[2]) if r[1] == "1" else "missed"))
s = open(V + "/DESIGN.md").read(); a = s.index("## Planted bugs") + len("## Planted bugs"); b = s.find("\n## ", a); b = len(s) if b < 0 else b
open(V + "/DESIGN.md", "w").write(s[:a] + "\n\nEach is confirmed in a scratch copy: builds, passes the tests, its demonstration fails with it and passes without.\n\n" + "\n".join(rows) + "\n" + s[b:])
