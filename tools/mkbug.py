"""mkbug.py <id> <property> <file> : reads JSON {"edits":[[old,new],...],"needs":..,"breaks":..,"demo":..} on stdin, writes seeded/<id>/"""
import json, os, subprocess, sys, shutil, tempfile
sid, prop = sys.argv[1:3]
spec = {}
exec(sys.stdin.read(), spec)
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
subprocess.check_call(["git", "worktree", "add", "-q", "--detach", w + "/wt"], cwd="/repo")
wt = w + "/wt"
try:
    for f, old, new in spec["edits"]:
        p = os.path.join(wt, f)
        s = open(p, encoding="utf-8", newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=wt)
    open(d + "/patch.diff", "wb").write(diff)
finally:
    subprocess.call(["git", "worktree", "remove", "--force", wt], cwd="/repo")
    shutil.rmtree(w, ignore_errors=True)
types = spec.get("types", False)
open(d + "/demo.py", "w").write(spec["demo"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as it should
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; W="$(mktemp -d)" || exit 2
trap 'rm -rf "$W"' EXIT
cp "$R/test/config.toml" "$W/" || exit 2
''' + ('cp -r "$R/test/Types" "$W/Types" || exit 2\n' if types else '') + '''PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
cd "$W" && PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 TZ=UTC PYTHONHASHSEED=0 timeout 200 "$PY" -B "$D/demo.py"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
