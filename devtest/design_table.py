"""Prints the seeded-bug table of DESIGN.md."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
for n in sorted(os.listdir(H)):
    m = json.load(open(os.path.join(H, n, "meta.json")))
    print("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"]))
