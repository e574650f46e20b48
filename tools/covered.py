"""tools/covered.py [file part] : union of /tmp/cover/*.json; functions (or lines of files named) no run reached"""
import ast, glob, json, os, sys
root = "/repo/src/DLMS_SPODES/"
hit = {}
for f in glob.glob("/tmp/cover/*.json"):
    for k, v in json.load(open(f)).items():
        hit.setdefault(k, set()).update(v)
tot = [0, 0]
for d, _, fs in sorted(os.walk(root)):
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        rel = os.path.relpath(os.path.join(d, f), root)
        src = open(root + rel).read()
        h = hit.get(rel, set())
        exe = set()
        miss = []
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                body = {x.lineno for b in n.body for x in ast.walk(b) if isinstance(x, ast.stmt) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, (ast.Pass, ast.Match))}
                exe |= body
                if body and not body & h:
                    miss.append((n.lineno, n.name))
        tot[0] += len(exe & h); tot[1] += len(exe)
        if len(sys.argv) > 1:
            if any(a in rel for a in sys.argv[1:]):
                L = src.splitlines()
                for i in sorted(exe - h):
                    print(f"{rel}:{i}: {L[i-1].strip()[:150]}")
        elif exe:
            print(f"{rel}: {len(exe & h)}/{len(exe)}", " ".join(f"{b}@{a}" for a, b in miss)[:700])
print(tot)
