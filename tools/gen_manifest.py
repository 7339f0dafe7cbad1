"""Builds MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    path = "%s/checks/%s.py" % (V, i)
    if not os.path.exists(path):
        na.append({"property": i, "reason": "no check registered yet (work in progress)"})
        continue
    c = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    checks.append({
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("TECHNIQUE", "property-based testing against a reference model (hypothesis)"),
        "level": c.get("LEVEL", "exploration"),
        "level_note": c.get("NOTE", "Generated-input search against an independent oracle; shows the property on the cases explored, not absence of faults. Trusts the oracle in checks/%s.py and the Python runtime." % i),
    })
json.dump({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "See DESIGN.md. No hooks in /repo; only 'fix:' commits. Checks import the code from /repo (editable installs), so they always see the working tree.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "unclaimed")
