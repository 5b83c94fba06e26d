#!/usr/bin/env python3
# Writes DESIGN.md.
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda f: open(V + "/" + f).read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
how = json.loads(R("tools/design_props.json")); notes = json.loads(R("tools/levels.json"))
head, tail = R("tools/design_head.md"), R("tools/design_tail.md")
fx = ["| property | commit | what failed |", "|---|---|---|"]
for l in R("known_findings.txt").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.append("| %s | %s | %s |" % m.groups())
seed = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); seed.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = head.replace("@@FIXES@@", "\n".join(fx))
for p in props:
    i = p["id"]; h = how[i]
    out += "### %s. %s\n\n%s\n\n" % (i, p["title"], p["statement"])
    out += "*Anchored in* %s.\n\n" % ", ".join("`%s`" % x for x in p["anchors"]["files"])
    out += "*Explored.* %s\n\n*Oracle.* %s. *Cost:* %s. *Limits:* %s\n\n*Beyond the tests.* %s\n\n" % (h["how"], h["oracle"], h["cost"], notes[i]["note"].split("model. ")[-1] if "independent model. " in notes[i]["note"] else notes[i]["note"], h["why"])
    try: ev = json.load(open(V + "/evidence/%s.json" % i))
    except OSError: ev = None
    if ev:
        out += "| scenario | bounds | states |\n|---|---|---|\n"
        for s in ev["coverage"]["scenarios"]: out += "| %s | %s | %s |\n" % (s["name"], s["bounds"].replace("|", "\\|"), "%d" % s["states"])
        out += "\n"
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for k in sorted(seed):
    for n, m in seed[k]: rows.append("| %s | %s | %s | %s |" % (n, k, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
out += tail.replace("@@NSEED@@", str(sum(map(len, seed.values())))).replace("@@SEEDED@@", "\n".join(rows)).replace("@@MUT@@", R("tools/design_mut.md").strip())
open(V + "/DESIGN.md", "w").write(out)
