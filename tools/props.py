#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                       "why_tests_cant": why, "anchors": a}, note=note, na=na))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["id"]
        f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")

TECH = "contract-based deductive verification of the Go source (weakest-precondition style symbolic execution of go/ssa, obligations discharged by z3/cvc5)"
COMMON = (" Trusted: the verifier gvc itself, go/ssa, the SMT solvers, the library models (math, sync, atomic, time) and every assumption listed in the evidence file; "
          "contracts in real mode treat float64 as mathematical reals and int as unbounded, contracts in bits mode are exact IEEE-754/two's complement.")
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": [],
     "notes": "Every check loads /repo's current sources together with the contract files under contracts/ (through an overlay), regenerates all obligations and discharges them. "
              "No hooks are needed in /repo. Known and fixed findings: known-findings.json."}
for p in P:
    id = p["rec"]["id"]
    if p["na"]:
        m["not_applicable"].append({"property": id, "reason": p["na"]})
        continue
    m["checks"].append({"property": id, "quick_cmd": f"bin/gvc check -prop {id} -tier quick", "thorough_cmd": f"bin/gvc check -prop {id} -tier thorough",
                        "technique": TECH, "level": "proof", "level_note": p["note"] + COMMON})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

# DESIGN.md
import re, glob
cts = {}
for path in sorted(glob.glob(os.path.join(HERE, "contracts", "**", "*.go"), recursive=True)):
    pk = os.path.relpath(os.path.dirname(path), os.path.join(HERE, "contracts"))
    props, target, mode = [], "", "real"
    for ln in open(path):
        if ln.startswith("//gvc:prop"):
            props = ln.split()[1:]
        elif ln.startswith("//gvc:mode"):
            mode = ln.split()[1]
        elif ln.startswith("//gvc:target"):
            target = ln.split()[1]
        elif ln.startswith("func "):
            n = re.match(r"func (\w+)", ln)
            if n and n[1].startswith("ct"):
                for p in props:
                    cts.setdefault(p, []).append(f"`{pk}.{n[1]}`" + (" (bits)" if mode == "bits" else ""))
            props, target, mode = [], "", "real"
        elif not ln.startswith("//"):
            props, target, mode = [], "", "real"
out = []
for p in P:
    r = p["rec"]
    out.append(f"### {r['id']} {r['title']}\n\n{r['statement']}\n")
    if p["na"]:
        out.append(f"Not applicable: {p['na']}\n")
        continue
    out.append(f"*Ranges over* {r['quantifier']['text']}. *Beyond the tests:* {r['why_tests_cant']}.\n")
    out.append(f"*How decided:* {p['note']}\n")
    out.append("*Contracts:* " + ", ".join(cts.get(r["id"], ["none"])) + ".\n")
kf = json.load(open(os.path.join(HERE, "known-findings.json")))
fixed = "\n".join("* " + k["what"] for k in kf if k["status"] == "fixed")
known = "\n".join("* " + k["property"] + " `" + k["contract"] + "`, obligation “" + k["obligation"] + "”: " + k["what"] for k in kf if k["status"] != "fixed") or "none yet"
bugs = []
res = {}
bl = os.path.join(HERE, "tools", "bugs.json")
if os.path.exists(bl):
    res = json.load(open(bl))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    bugs.append(f"* {os.path.basename(d)} ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}. **{res.get(os.path.basename(d), 'not run')}**")
t = open(os.path.join(HERE, "tools", "design.tmpl")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", fixed).replace("@@KNOWN@@", known).replace("@@BUGS@@", "\n".join(bugs))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
