import json, os, glob, props, jobs, design_notes as N
MARK = "<!-- generated by gen.py from props.py, jobs.py, design_notes.py, known_findings.json, seeded/ -->"
def write(claimed):
    head = open("DESIGN.md").read().split(MARK)[0]
    o = [head + MARK + "\n\n## Properties\nCost is the wall time of the quick check on 8 cores when it was last measured (`cost.json`).\n"]
    cost = json.load(open("cost.json")) if os.path.exists("cost.json") else {}
    for x in props.PR:
        i = x["id"]
        o.append("### %s %s" % (i, x["title"]))
        if i not in claimed: o.append("Not applicable: " + props.NA.get(i, "no check") + "\n"); continue
        b = jobs.PROPS[i]; ql = jobs.jobs_for(i, "quick"); tl = jobs.jobs_for(i, "thorough")
        ent = sorted(set((j["src"], j["entry"]) for j in tl))
        o.append("* decided: " + N.O.get(i, "") + "\n* harness: " + ", ".join("`%s` (%s)" % (s, ", ".join(e for q, e in ent if q == s)) for s in sorted(set(q for q, _ in ent))) + "; %d quick jobs, %d thorough jobs%s" % (len(ql), len(tl), ", about %s s" % cost[i] if i in cost else "") + "\n* bounds: " + b["bounds"] + "\n* outside: " + b["outside"] + "\n")
    o.append("## Planted bugs and the checks that catch them\n| bug | property | needs | caught by |\n|---|---|---|---|")
    det = json.load(open("detected.json")) if os.path.exists("detected.json") else {}
    for d in sorted(glob.glob("seeded/*/meta.json")):
        m = json.load(open(d)); n = d.split("/")[1]; o.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), det.get(n, "not measured")))
    o.append("\n## Known findings (genuine defects left as they are)\n")
    k = json.load(open("known_findings.json"))
    for e in k:
        if e["status"] == "known": o.append("* %s (%s): %s" % (e["id"], e["property"], e["what"]))
    o.append("\n## Defects found and repaired\nEvery line is one `fix:` commit in /repo; the check named by the property fails on the commit before it.\n")
    seen = set()
    for e in k:
        if e["status"] == "fixed" and e["what"] not in seen: seen.add(e["what"]); o.append("* " + e["what"][len("fixed: "):])
    o.append("\n## Tried and dropped, and what is outside\n" + "\n".join("* " + d for d in N.DROPPED) + "\n")
    open("DESIGN.md", "w").write("\n".join(o))
