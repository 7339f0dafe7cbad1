"""mkseed.py FILE.py: S = [dict(id=, property=, needs=, breaks=, edits=[(path, old, new)], demo=, venv=)] -> seeded/<id>/."""
import difflib, json, os, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["S"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    out = []
    byfile = {}
    for path, old, new in s["edits"]:
        byfile.setdefault(path, []).append((old, new))
    for path, edits in byfile.items():
        a = b = open("/repo/" + path).read()
        for old, new in edits:
            assert b.count(old) == 1, (s["id"], path, b.count(old), old)
            b = b.replace(old, new)
        out.append("diff --git a/%s b/%s\n" % (path, path))
        out += difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + path, "b/" + path)
    open(d + "/patch.diff", "w").write("".join(out))
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 /opt/venv-%s/bin/python -B "$(dirname "$0")/demo.py"\n' % s.get("venv", "pb5"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
