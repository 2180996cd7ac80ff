"""Writes DESIGN.md's table of planted bugs (between the last heading and the end of the file)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(sys.argv[1] if len(sys.argv) > 1 else V + "/DESIGN.md").read()
head = body.split("| bug |")[0].rstrip() + "\n\n"
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % n))
    t = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (n, t(m["what_it_breaks"]), t(m["needs"]), m.get("caught_by", m["property"])))
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
