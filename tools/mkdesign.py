"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(here + "/tools/caught.json"))
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    b, m = f.split("/")[-2], json.load(open(f))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(b, '-')} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = s.replace("@SEEDED@", "| bug |\n")
head = s[:s.index("| bug |")]
open(p, "w").write(head + "\n".join(rows) + "\n")
