#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/meta/props/*.json")):
    for p in json.load(open(f)):
        chk = p.pop("check", None)
        why = p.pop("not_applicable", None)
        props.append(p)
        if why:
            na.append({"property": p["id"], "reason": why})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 /verif/run.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % p["id"],
                "technique": chk["technique"], "level": chk.get("level", "exploration"),
                "level_note": chk["note"]})
props.sort(key=lambda p: p["id"]); checks.sort(key=lambda c: c["property"])
assert len({p["id"] for p in props}) == len(props)
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    for a in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + a), (p["id"], a)
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks,
               "not_applicable": na,
               "notes": "No hooks: every check drives the code through its exported API, its command line or a loopback socket."}, f, indent=1)
    f.write("\n")

# DESIGN.md from its template
caught = {}
if os.path.exists(V + "/meta/caught.txt"):
    for l in open(V + "/meta/caught.txt"):
        k, v = l.split(None, 1)
        caught[k] = v.strip()
rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, k = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (k, m["property"], m["needs"], caught.get(k, "not run")))
t = open(V + "/meta/DESIGN.tmpl.md").read()
t = t.replace("@SEEDED@", "\n".join(rows))
t = t.replace("@NFIX@", "%d repairs" % sum(l.startswith("fixed:") for l in open(V + "/known_findings.txt")))
t = __import__("re").sub(r"@EXTRA_\w+@\n", "", t)
open(V + "/DESIGN.md", "w").write(t)
