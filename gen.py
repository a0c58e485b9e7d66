#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
P = []


def prop(id, title, statement, over, why, files, mech, note="", na=None, text=None):
    P.append(dict(id=id, title=title, statement=statement, text=text or over, why=why, files=files, mech=mech, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

have = {}
for h in vk.harnesses():
    have.setdefault(h["prop"], []).append(h)
out, checks, na = [], [], []
for p in sorted(P, key=lambda p: p["id"]):
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=["inputs"] if "history" not in p["text"] else ["inputs", "histories"], text=p["text"]),
                    why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
    hs = have.get(p["id"], [])
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        assert not hs, p["id"]
        continue
    q = [h for h in hs if h["tier"] == "quick"]
    assert q, p["id"] + " has no harness"
    comp = [h for h in q if h["cls"] == "complete"]
    bnd = [h for h in q if h["cls"] == "bounded"]
    level = "proof" if comp else "model_checking"
    note = "%d contract harnesses discharged completely by Kani/CBMC" % len(comp)
    if bnd:
        note += "; %d bounded stand-ins (bounds in the evidence file), never counted as proved" % len(bnd)
    note += ". " + p["note"] if p["note"] else "."
    note += " Trusts Kani's MIR translation, CBMC and its solver."
    checks.append(dict(property=p["id"], quick_cmd="python3 vk.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 vk.py " + p["id"],
                       technique="deductive contracts on the real Rust code, discharged by Kani (CBMC)",
                       level=level, level_note=note))
with open("properties.jsonl", "w") as f:
    for o in out:
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif hooks"], capture_output=True, text=True).stdout.split()
json.dump(dict(version=1, setup_cmd="python3 vk.py --list > /dev/null",
               hooks=dict(guard="cfg(kani)", enable="cargo kani compiles /repo's crate with --cfg kani", source_commits=hooks),
               checks=checks, not_applicable=na,
               notes="Known findings and repaired defects: known_findings.txt. Table of properties: props.py (gen.py writes this file)."),
          open("MANIFEST.json", "w"), indent=1)
print(len(out), "properties", len(checks), "checks", len(na), "n/a")
for f, s in (("MANIFEST.json", "/root/.vp/MANIFEST.schema.json"),):
    try:
        import jsonschema
        jsonschema.validate(json.load(open(f)), json.load(open(s)))
    except ImportError:
        pass
