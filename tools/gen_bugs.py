#!/usr/bin/env python3
"""Refreshes the list of planted bugs in DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = "vec_item_state tag_first_attr from_str_trim eof_flatten f32_double_rounding msg_cut skip_limit variant_case".split()
fm = V + "/tools/first_missed.txt"
if os.path.exists(fm): first_missed += open(fm).read().split()
s = "| change | caught by | needs | note |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    s += "| `%s`: %s | %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "\\|"), m["property"], m["needs"].replace("|", "\\|"), "first missed, check strengthened" if i in first_missed else "")
d = V + "/DESIGN.md"; t = open(d).read(); a, z = "<!-- bugs -->\n", "<!-- end bugs -->"
open(d, "w").write(t[:t.index(a) + len(a)] + s + t[t.index(z):])
