"""DESIGN.md = doc/design_head.md + a section per property (from lib/) + doc/design_tail.md + table of planted bugs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(here, "lib"))
import meta, jobs
out = [open(os.path.join(here, "doc/design_head.md")).read()]
out.append("\n## Properties\n")
for m in meta.M:
    p = jobs.PROPS[m["id"]]
    ents = sorted({j.entry for j in p.jobs})
    q = sum(j.tier == "quick" for j in p.jobs); t = sum(j.tier == "thorough" for j in p.jobs)
    out.append("### %s %s\n" % (m["id"], m["title"]))
    out.append("%s\n" % m["statement"])
    out.append("- Decided by: harness entries %s, executed symbolically; %d jobs quick, %d more thorough." % (", ".join("`%s`" % e for e in ents), q, t))
    out.append("- Bounds: %s." % p.bounds)
    out.append("- Outside: %s." % p.outside)
    if p.assumptions: out.append("- Assumes: %s." % "; ".join(p.assumptions))
    out.append("- Why tests do not settle it: %s" % m["why_tests_cant"])
    out.append("- Anchors: %s.\n" % "; ".join("%s (%s)" % (a["name"], a["where"]) for a in m["anchors"]["mechanism"]))
out.append(open(os.path.join(here, "doc/design_tail.md")).read())
out.append("\n## Planted bugs and the checks that catch them\n\nEach was confirmed in a copy: builds, all stable tests pass, demo passes without and fails with it. \"at first missed\" means the check was strengthened because of it.\n\n| bug | what it breaks | check | note |\n|---|---|---|---|")
notes = json.load(open(os.path.join(here, "doc/bug_notes.json")))
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    f = os.path.join(here, "seeded", b, "meta.json")
    if not os.path.exists(f): continue
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (b, d["what_it_breaks"].replace("|", "/"), notes.get(b, {}).get("by", d["property"]), notes.get(b, {}).get("note", "caught at once")))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
