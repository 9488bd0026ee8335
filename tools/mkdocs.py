#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from properties_src.py"""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import properties_src as S
have = {os.path.basename(f)[:3].upper() for f in glob.glob(HERE + "/props/c*_*.py")}
with open(HERE + "/properties.jsonl", "w") as f:
    for p in S.PROPS + [n["prop"] for n in S.NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s))
                                  for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m))
                                      for m in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in S.PROPS:
    if p["id"] not in have:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    c = f"/opt/venv/bin/python /verif/run.py {p['id']}"
    checks.append({
        "property": p["id"], "quick_cmd": c + " --tier quick",
        "thorough_cmd": c + " --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": S.TECH,
        "level": "model_checking",
        "level_note": p["note"] or (
            "Bounded: for the sizes in the evidence file's bounds, every value of the "
            "symbolic inputs is covered by a solver verdict, over exact reals. Trusts z3, "
            "the polynomial normal form and the numpy/scipy contracts in engine/, which "
            "are validated on every path by replaying a solver model on the real code.")})
na += [{"property": n["prop"]["id"], "reason": n["reason"]} for n in S.NOT_APPLICABLE]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/setup.py",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: mud is imported unmodified from /repo's working tree."},
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
