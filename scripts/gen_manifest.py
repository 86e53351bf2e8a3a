"""Writes /verif/MANIFEST.json from the check modules that exist."""
import ast, json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    m = V / "mc" / "checks" / f"{p['id'].lower()}.py"
    if not m.exists():
        na.append({"property": p["id"], "reason": "no check built for it yet"})
        continue
    ns = {}
    for node in ast.parse(m.read_text()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in (
            "technique", "level", "level_note"):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} --tier quick",
        "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": ns["technique"],
        "level": ns["level"],
        "level_note": ns["level_note"],
    })
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, hmf\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "Explicit-state / stateless exploration of the real code in /repo/src (pure Python, "
             "imported from the working tree; nothing is built). No hooks in /repo. "
             "Known findings and fixed defects: known_findings.txt.",
}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
