#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py (the one place where properties are described) and docs/*.md."""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import CLAIMED, NOT_APPLICABLE  # noqa

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in CLAIMED + NOT_APPLICABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        fh.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}",
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

# DESIGN.md
notes = os.path.join(VERIF, "docs", "rules.json")     # rule texts, kept so that DESIGN.md does not depend on evidence/
rules = json.load(open(notes)) if os.path.exists(notes) else {}
for p in CLAIMED:
    e = os.path.join(VERIF, "evidence", p["id"] + ".json")
    if os.path.exists(e):
        ev = json.load(open(e))
        rules[p["id"]] = {"rule": ev["coverage"]["explanation"], "obl": ev["coverage"]["obligations"], "fns": ev["coverage"]["functions_analysed"], "wall": round(ev["wall_s"])}
json.dump(rules, open(notes, "w"), indent=1, ensure_ascii=False)
res = os.path.join(VERIF, "docs", "caught.json")
caught = json.load(open(res)) if os.path.exists(res) else {}
out = [open(os.path.join(VERIF, "docs", "head.md")).read(), "## 2. The properties and how each is decided\n"]
for p in CLAIMED:
    r = rules.get(p["id"], {})
    out.append(f"### {p['id']} – {p['title']}\n\n{p['statement']}\n\n*Quantified over*: {p['q']}. *Anchored in*: {', '.join(p['files'])}. *Tests*: {p['why']}.\n\n"
               f"*Decided by*: {r.get('rule', '(see sa/props)')}\n\n"
               + (f"*Size on the unchanged tree*: {r['obl']} obligations over {r['fns']} functions.\n" if r else ""))
out.append("### Not applicable\n")
for p in NOT_APPLICABLE:
    out.append(f"* **{p['id']} {p['title']}** – {p['statement']} *Why not*: {p['reason']}.\n")
out.append("\n## 3. Planted bugs\n\nEach lies in `seeded/<id>/`; all build, pass the stable tests, and have a demonstration that fails only with the change. `caught` = the property's check exits 1.\n\n| bug | property | what it breaks | result |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    mt = json.load(open(d))
    out.append(f"| {i} | {mt['property']} | {mt['what_it_breaks']} | {caught.get(i, '?')} |")
kf = [json.loads(x) for x in open(os.path.join(VERIF, "known_findings.jsonl")) if x.startswith("{")]
out.append("\n## 4. Genuine defects of ms_toollib found and what was done\n\nRepaired in /repo, each a small `fix:` commit (`fixed` entries of `known_findings.jsonl`; the check of the property reports the defect again if it returns):\n")
out += [f"* {x['property']} `{x['commit']}` – {x['text'].split(' ', 3)[-1]}." for x in kf if x["status"] == "fixed"]
out.append("\nRecorded, not repaired (`open` entries; the check prints KNOWN-FINDING for exactly this obligation):\n")
out += [f"* {x['property']} obligation `{x['key']}` – {x['text']}." for x in kf if x["status"] == "open"]
out.append("\n" + open(os.path.join(VERIF, "docs", "tail.md")).read())
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))
print(len(CLAIMED), "claimed", len(NOT_APPLICABLE), "not applicable")
