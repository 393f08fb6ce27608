#!/usr/bin/env python3
"""exp.py FILE: expands the shorthand `@T Name { f: ty, .. }` (one line) in a harness source into a derived struct,
`@E` likewise for an enum (`@C`, `@F`: the same, cloneable; `@S`, `@D`: only serializable); run once when the source is written."""
import sys, re
K = {"T": ("struct", "PartialEq, Debug"), "E": ("enum", "PartialEq, Debug, Default"), "C": ("struct", "Clone, PartialEq, Debug"), "F": ("enum", "Clone, PartialEq, Debug, Default"), "S": ("struct", "PartialEq, Debug"), "D": ("enum", "PartialEq, Debug")}
def one(m):
    w, d = K[m.group(1)]
    de = "" if m.group(1) in "SD" else "YaDeserialize, "
    return "#[derive(YaSerialize, %s%s)]\n%s%s %s %s" % (de, d, "#[yaserde(%s)]\n" % m.group(2)[1:-1] if m.group(2) else "", w, m.group(3), m.group(4))
for f in sys.argv[1:]:
    s = open(f).read()
    s = re.sub(r"^@([TECFSD])(\[[^\n]*?\])? (\w+) (\{.*\})", one, s, flags=re.M)
    open(f, "w").write(s)
