#!/usr/bin/env python3
"""Puts DESIGN.md together: doc/design_head.md, one section per property (doc/props.md, specs.py), findings, planted bugs."""
import json, os, re
import specs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(VERIF, p)).read()
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
notes = {}
for part in re.split(r"^## ", rd("doc/props.md"), flags=re.M)[1:]:
    h, b = part.split("\n", 1)
    notes[h.strip()] = b.strip()
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}

out = [rd("doc/design_head.md").rstrip(), "\n\n## Properties\n"]
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s\n" % na[i])
        continue
    out.append(notes.get(i, "(no notes)") + "\n")
    if i not in specs.PROPS:
        d = {}
        exec(rd("harness/%s.py" % i), d)
        out.append("Entries of `harness/%s.py` and bounds (quick; thorough parameters in brackets where they differ):\n" % i)
        for n, (_, q, t, _, b) in d["ENTRIES"].items():
            ps = ", ".join("%s=%s%s" % (k, v, " [%s]" % t[k] if t.get(k) != v else "") for k, v in q.items())
            out.append("- `%s`%s: %s" % (n, " (%s)" % ps if ps else "", b))
        out.append("")
        continue
    for u in specs.PROPS[i].get("units", []):
        out.append("Sources encoded with `harness/%s`: %s. Entries and bounds (quick; thorough parameters in brackets where they differ):\n" % (u["harness"], ", ".join("`%s`" % g for g in u["groups"])))
        for e in u["entries"]:
            q, t = e.get("params", ({}, {}))
            ps = ", ".join("%s=%s%s" % (k, v, " [%s]" % t[k] if t.get(k) != v else "") for k, v in q.items())
            out.append("- `%s`%s: %s" % (e["entry"], " (%s)" % ps if ps else "", e.get("bounds", "")))
        out.append("")
    if "extra" in specs.PROPS[i]:
        out.append(specs.PROPS[i]["extra"] + "\n")

out.append("## Defects found\n")
out.append("All were shown with a concrete input or schedule against the real code. `fixed` entries are `fix:` commits in /repo; they suppress nothing (`known_findings.jsonl`).\n")
out.append("| id | property | status | commit | what failed |\n|---|---|---|---|---|")
for l in open(os.path.join(VERIF, "known_findings.jsonl")):
    if l.strip():
        f = json.loads(l)
        out.append("| %s | %s | %s | %s | %s |" % (f["id"], f["property"], f["status"], f.get("commit", ""), f["what"].replace("|", "\\|")))
out.append("\n## Planted bugs\n")
out.append(rd("doc/seeds.md").rstrip() + "\n")
out.append("| planted bug | caught by | needs | what it breaks |\n|---|---|---|---|")
sd = os.path.join(VERIF, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (n, m.get("caught_by", m["property"]), m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out) + "\n")
