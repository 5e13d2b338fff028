#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property, the planted bugs, tools/design_tail.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda f: open(root + "/" + f, encoding="utf-8").read()
exec(read("tools/notes.py"))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
bugs = {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))
out = [read("tools/design_head.md").rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    src = read("harness/src/props/%s.rs" % i.lower())
    rule = re.search(r'rule:\s*"((?:[^"\\]|\\.)*)"', src, re.S).group(1)
    rule = re.sub(r"\\\n\s*", "", rule).replace('\\"', '"')
    num = {k: re.search(k + r":\s*([\d_]+)", src).group(1).replace("_", ",") for k in ("quick", "thorough")}
    tech, note = NOTE[i]
    out += ["### %s %s" % (i, p["title"]), "",
            "*Decided by* generated inputs against %s. %s random cases in the quick tier, up to %s in the thorough one." % (tech, num["quick"], num["thorough"]), "",
            rule, "", "*Bounds.* %s." % (note[0].upper() + note[1:]), ""]
out += ["## Planted bugs", "",
        "Each is kept in `seeded/<id>` with a demonstration; \"caught\" means that the quick command of the property's own",
        "check ends with its VIOLATION line at seed 1. All of them are.", "",
        "| property | bug | needs |", "|---|---|---|"]
for i in sorted(bugs):
    for name, needs in bugs[i]:
        out.append("| %s | %s | %s |" % (i, name, needs.replace("|", "\\|")))
out += ["", read("tools/design_tail.md").rstrip(), ""]
open(root + "/DESIGN.md", "w", encoding="utf-8").write("\n".join(out))
