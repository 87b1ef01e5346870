"""Writes DESIGN.md from its parts and the planted bugs' descriptions."""
import json, os
V = "/verif"
o = open(V + "/tools/design_head.md").read() + open(V + "/tools/design_props.md").read()
r = {}
p = V + "/tools/caught.json"
if os.path.exists(p):
    r = json.load(open(p))
o += "| bug | breaks | needs | caught by |\n|---|---|---|---|\n"
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    o += "| %s | %s | %s | %s |\n" % (b, m["what_it_breaks"], m["needs"], r.get(b, "not tried yet"))
t = V + "/tools/design_tail.md"
if os.path.exists(t):
    o += open(t).read()
open(V + "/DESIGN.md", "w").write(o)
