"""Rewrites the table of planted bugs in DESIGN.md (run by hand)."""
import json, os, re
LATE = {"c04-isolated-order": "isolated target nodes and hash seeds", "c05-weight-64": "piles of 60 and more chains", "c20-overlap-overflow": "crowded placements",
        "c08-improving": "counting passes after the deadline", "c03-parallel-fill": "crowded qubits", "c07-no-qubits": "targets full of fixed chains"}
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
d = "seeded"
for x in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, x, "meta.json")))
    rows.append("| %s | %s | %s | %s%s |" % (x, m["what_it_breaks"], m["needs"], m["property"], " (after adding %s)" % LATE[x] if x in LATE else ""))
p = "DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end of table -->"
if "<!-- table -->" in s:
    s = re.sub(r"<!-- table -->.*?<!-- end of table -->", lambda _: t, s, flags=re.S)
else:
    s = s.replace("(table below is refreshed with each batch)", t)
open(p, "w").write(s)
